#include "chains.hpp"
namespace ch {
void part_deep_ri(world& w, lager::reader<int> a, lager::reader<int> b)
{
    chain_from<3, few, int, false>(w, a, b);
}
} // namespace ch
