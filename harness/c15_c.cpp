#include "c15.hpp"

namespace cx {
template struct holder<7>;
template struct holder<8>;
template struct holder<9>;
} // namespace cx
