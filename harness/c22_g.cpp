#include "c22.hpp"

MALFORMED(structs_again, tpl_t, ns::host::nested_derived, ns::tree, immer::vector<ns::nothing>)
