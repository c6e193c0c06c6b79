#include "c29_two.hpp"

PBT_TARGET(two_derived_plain, 1, "every case") { two_any<derived, plain>(c); }
