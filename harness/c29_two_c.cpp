#include "c29_two.hpp"

PBT_TARGET(two_doubled_derived_twice, 1, "every case") { two_any<doubled, derived_twice>(c); }
