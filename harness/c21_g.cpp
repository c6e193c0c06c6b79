#include "c21_check.hpp"

PBT_TARGET(tuples, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           tup_a,
           tup_e,
           tup_n,
           immer::array<tup_a>,
           std::optional<immer::vector<int>>>(c);
}
PBT_TARGET(inline_tuples, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           tup_a>(c);
}
