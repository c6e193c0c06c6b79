#include <cassert>
#include "c26_commit.hpp"

template void
c26::commit_part<3>(c26::roots& r, unsigned set, bool backwards);
