#include "c14.hpp"

namespace dp {
template struct holder<0>;
template struct holder<1>;
template struct holder<2>;
} // namespace dp
