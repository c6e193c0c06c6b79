#include "c21_check.hpp"

PBT_TARGET(sets, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           map_co,
           set_i,
           set_s,
           set_c,
           immer::box<set_s>>(c);
}
PBT_TARGET(inline_sets, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           set_s>(c);
}
