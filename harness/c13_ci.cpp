#include "chains.hpp"
namespace ch {
void part_ci(world& w, lager::cursor<int> a, lager::cursor<int> b)
{
    chain_from<2, all, int, true>(w, a, b);
}
} // namespace ch
