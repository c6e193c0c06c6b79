#include "c21_check.hpp"

PBT_TARGET(structs_again, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           tpl_t,
           tpl_d,
           ns::host::nested,
           ns::host::nested_derived,
           ns::tree,
           immer::vector<ns::camel>,
           immer::vector<ns::nothing>>(c);
}
PBT_TARGET(inline_structs_again, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           ns::tree,
           tpl_d>(c);
}
