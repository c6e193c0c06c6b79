#include <cassert>
#include "c10.hpp"
using pbt::Case;

PBT_TARGET(lenses_of_pairs, 2, "the part set differs from the part viewed")
{
    switch (c.below(3)) {
    case 0:
        return lt::walk_from<1, std::pair<lt::In, int>>(c);
    case 1:
        return lt::walk_from<1, std::array<lt::In, 2>>(c);
    default:
        return lt::walk_from<0, immer::box<lt::Mid>>(c);
    }
}
