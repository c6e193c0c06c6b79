#include "c21_check.hpp"

PBT_TARGET(maps_by_id, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           map_ii,
           map_sn,
           immer::vector<map_ii>>(c);
}
PBT_TARGET(inline_maps_by_id, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           map_ii,
           map_ci>(c);
}
