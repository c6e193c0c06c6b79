// Walking the compositions of the total lenses, statically typed.
#pragma once
#include "lens_check.hpp"

namespace lt {

// goes `Depth` steps further from the part of lens `l` (or stops on the way)
template <int Depth, typename Lens, typename W, typename P>
void walk(Case& c, const Lens& l, const ref<W, P>& r)
{
    if constexpr (Depth > 0) {
        if (c.chance(2, 3)) {
            auto ls = lenses_of(type<P>{});
            auto i  = c.below(std::tuple_size_v<decltype(ls)>);
            at_index(ls, i, [&](auto& e) {
                walk<Depth - 1>(c, zug::comp(l, e.l), then(r, e.r));
            });
            return;
        }
    }
    check_lens(c, l, r);
}

template <int Depth, typename W>
void walk_from(Case& c)
{
    auto ls = lenses_of(type<W>{});
    auto i  = c.below(std::tuple_size_v<decltype(ls)>);
    at_index(ls, i, [&](auto& e) { walk<Depth>(c, e.l, e.r); });
}

// compositions that start with the I-th lens of W
template <int Depth, typename W, std::size_t I>
void walk_through(Case& c)
{
    auto ls = lenses_of(type<W>{});
    auto& e = std::get<I>(ls);
    walk<Depth>(c, e.l, e.r);
}

} // namespace lt
