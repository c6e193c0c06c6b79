#include "c22.hpp"

MALFORMED(maps, map_is, map_ci, map_mm, map_co)
