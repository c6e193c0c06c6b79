#include "c22.hpp"

MALFORMED(variants, var_a, var_b, immer::vector<var_a>, std::optional<ns::color>)
