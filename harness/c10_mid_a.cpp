#include <cassert>
#include "c10.hpp"
using pbt::Case;

PBT_TARGET(through_mid_a, 2, "the part set differs from the part viewed")
{
    lt::walk_through<2, lt::Mid, 0>(c);
}
