#include "c22.hpp"

MALFORMED(sequences, immer::vector<int>, immer::flex_vector<std::string>, immer::array<immer::vector<bool>>, immer::vector<immer::box<std::string>>)
