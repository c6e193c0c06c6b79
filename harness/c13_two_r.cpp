#include "chains.hpp"
namespace ch {
void part_two_r(world& w,
                lager::reader<int> a1,
                lager::reader<P> a2,
                lager::reader<int> b1,
                lager::reader<P> b2)
{
    chain_two<2, false>(w, a1, a2, b1, b2);
}
} // namespace ch
