#include "chains.hpp"
namespace ch {
void part_ri(world& w, lager::reader<int> a, lager::reader<int> b)
{
    chain_from<2, all, int, false>(w, a, b);
}
} // namespace ch
