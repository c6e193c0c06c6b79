#include "c14.hpp"

namespace dp {
template struct holder<3>;
template struct holder<4>;
template struct holder<5>;
} // namespace dp
