#include <cassert>
#include "c10.hpp"
using pbt::Case;

PBT_TARGET(lenses_of_outer, 3, "the part set differs from the part viewed")
{
    lt::walk_from<1, lt::Out>(c);
}
