#include "chains.hpp"
namespace ch {
void part_rp(world& w, lager::reader<P> a, lager::reader<P> b)
{
    chain_from<2, all, P, false>(w, a, b);
}
} // namespace ch
