#include "c22.hpp"

MALFORMED(structs, ns::point, ns::camel, ns::derived, immer::vector<ns::color>)
