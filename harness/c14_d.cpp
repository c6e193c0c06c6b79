#include "c14.hpp"

namespace dp {
template struct holder<9>;
template struct holder<10>;
template struct holder<11>;
template struct holder<12>;
} // namespace dp
