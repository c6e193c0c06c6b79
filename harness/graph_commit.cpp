// lager::commit() of up to four roots of any type, in one call.
#include "graph.hpp"

namespace graph {

// the concrete type of the n-th root is found first, so that lager::commit()
// is called with the roots themselves
template <std::size_t I = 0, typename Fn>
void with_root(root_t& r, Fn fn)
{
    if constexpr (I < std::variant_size_v<root_t>) {
        if (auto p = std::get_if<I>(&r))
            fn(*p);
        else
            with_root<I + 1>(r, fn);
    }
}

void commit3(root_t&, root_t&, root_t&);

void commit_roots(std::vector<root_t*> rs)
{
    switch (rs.size()) {
    case 0:
        return;
    case 1:
        return with_root(*rs[0], [](auto& a) { lager::commit(a); });
    case 2:
        return with_root(*rs[0], [&](auto& a) {
            with_root(*rs[1], [&](auto& b) { lager::commit(a, b); });
        });
    case 3:
        return with_root(*rs[0], [&](auto& a) {
            with_root(*rs[1], [&](auto& b) {
                with_root(*rs[2], [&](auto& d) { lager::commit(a, b, d); });
            });
        });
    default:
        throw std::logic_error("too many roots");
    }
}

} // namespace graph
