#include "c15.hpp"

namespace cx {
template struct holder<10>;
template struct holder<11>;
template struct holder<12>;
template struct holder<13>;
} // namespace cx
