#include "c14.hpp"

namespace dp {
template struct holder<6>;
template struct holder<7>;
template struct holder<8>;
} // namespace dp
