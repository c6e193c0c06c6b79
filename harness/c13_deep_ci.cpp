#include "chains.hpp"
namespace ch {
void part_deep_ci(world& w, lager::cursor<int> a, lager::cursor<int> b)
{
    chain_from<3, few, int, true>(w, a, b);
}
} // namespace ch
