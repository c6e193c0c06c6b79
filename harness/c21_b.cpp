#include "c21_check.hpp"

PBT_TARGET(nested_sequences, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           immer::vector<immer::box<std::string>>,
           immer::flex_vector<immer::flex_vector<std::string>>,
           immer::flex_vector<immer::box<int>>,
           immer::array<immer::vector<bool>>,
           immer::box<immer::vector<std::string>>,
           immer::vector<immer::array<immer::box<double>>>>(c);
}
PBT_TARGET(inline_nested_sequences, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           immer::flex_vector<std::string>,
           immer::array<immer::vector<bool>>,
           immer::box<immer::vector<std::string>>>(c);
}
