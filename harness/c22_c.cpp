#include "c22.hpp"

MALFORMED(keyed, map_ii, map_sn, set_s, set_c, immer::box<set_i>)
