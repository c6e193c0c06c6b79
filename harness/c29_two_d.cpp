#include "c29_two.hpp"

PBT_TARGET(two_derived_derived, 1, "every case") { two_any<derived, derived>(c); }
