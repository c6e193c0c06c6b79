#include "chains.hpp"
namespace ch {
void part_cp(world& w, lager::cursor<P> a, lager::cursor<P> b)
{
    chain_from<2, all, P, true>(w, a, b);
}
} // namespace ch
