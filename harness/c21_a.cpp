#include "c21_check.hpp"

PBT_TARGET(sequences_of_values, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           immer::vector<int>,
           immer::vector<std::string>,
           immer::flex_vector<int>,
           immer::array<int>,
           immer::box<immer::box<int>>,
           immer::vector<immer::vector<int>>>(c);
}
PBT_TARGET(inline_sequences_of_values, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           immer::vector<int>>(c);
}
