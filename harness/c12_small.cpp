#include "c12.hpp"

PBT_TARGET(erased_total, 4, "the part set differs from the part viewed")
{
    switch (c.below(5)) {
    case 0:
        return total<In, int>(c);
    case 1:
        return total<In, In>(c);
    case 2:
        return total<PI, In>(c);
    case 3:
        return total<PI, int>(c);
    default:
        return total<PI, std::string>(c);
    }
}
