#include "c15.hpp"

namespace cx {
template struct holder<0>;
template struct holder<1>;
template struct holder<2>;
} // namespace cx
