#include "c29_two.hpp"

PBT_TARGET(two_plain_plain, 1, "every case") { two_any<plain, plain>(c); }
