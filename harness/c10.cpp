// C10: every provided lens and every composition of lenses obeys the laws.
#include <cassert>
#include "c10.hpp"
using pbt::Case;

PBT_TARGET(lenses_of_small, 2, "the part set differs from the part viewed")
{
    if (c.flip())
        return lt::walk_from<1, lt::In>(c);
    return lt::walk_from<1, std::tuple<int, lt::In, std::string>>(c);
}
