#include "c21_check.hpp"

PBT_TARGET(maps, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           map_is,
           map_sv,
           map_ci,
           map_mm,
           map_io>(c);
}
PBT_TARGET(inline_maps, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           map_is>(c);
}
