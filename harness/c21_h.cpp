#include <lager/extra/cereal/enum.hpp>

#include "c21_check.hpp"

PBT_TARGET(structs, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           ns::color,
           immer::vector<ns::color>,
           ns::point,
           ns::nothing,
           ns::camel,
           ns::derived,
           ns::derived_nothing>(c);
}
PBT_TARGET(inline_structs, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           ns::derived,
           ns::derived_nothing>(c);
}
