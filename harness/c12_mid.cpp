#include "c12.hpp"

PBT_TARGET(erased_deep, 4, "the part set differs from the part viewed")
{
    switch (c.below(4)) {
    case 0:
        return total<Mid, In>(c);
    case 1:
        return total<Mid, int>(c);
    case 2:
        return total<Mid, std::string>(c);
    default:
        return total<Mid, PI>(c);
    }
}
