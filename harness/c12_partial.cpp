#include "c12.hpp"

PBT_TARGET(erased_partial, 3, "the part set differs from the part viewed")
{
    switch (c.below(4)) {
    case 0:
        return partial<VI, int>(c);
    case 1:
        return partial<MI, In>(c);
    case 2:
        return partial<V3, std::string>(c);
    default:
        return partial<VI, std::string>(c);
    }
}
