#include "c15.hpp"

namespace cx {
template struct holder<3>;
template struct holder<4>;
template struct holder<5>;
template struct holder<6>;
} // namespace cx
