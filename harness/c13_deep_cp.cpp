#include "chains.hpp"
namespace ch {
void part_deep_cp(world& w, lager::cursor<P> a, lager::cursor<P> b)
{
    chain_from<3, few, P, true>(w, a, b);
}
} // namespace ch
