#include "chains.hpp"
namespace ch {
void part_two_c(world& w,
                lager::cursor<int> a1,
                lager::cursor<P> a2,
                lager::cursor<int> b1,
                lager::cursor<P> b2)
{
    chain_two<2, true>(w, a1, a2, b1, b2);
}
} // namespace ch
