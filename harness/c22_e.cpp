#include "c22.hpp"

MALFORMED(tuples, tup_a, tup_e, tup_n)
