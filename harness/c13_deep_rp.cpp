#include "chains.hpp"
namespace ch {
void part_deep_rp(world& w, lager::reader<P> a, lager::reader<P> b)
{
    chain_from<3, few, P, false>(w, a, b);
}
} // namespace ch
