// Values derived from ints.
#include "graph_make.hpp"

namespace graph {

template <bool C>
void derive_one(world& w, handle<int, C>& h)
{
    auto& c   = w.c;
    auto no   = std::function<bool(const vals&)>{};
    auto kind = c.below(w.opt.only_cursors ? 3 : 8);
    switch (kind) {
    case 0:
        MK_CURSOR_OR_READER(
            int,
            "zoom(negate)",
            h.h.zoom(negate),
            [](const vals& v) { return val{-v[0][0]}; },
            put_fn([](const val&, const val& x) -> std::optional<val> {
                return val{-x[0]};
            }));
        break;
    case 1:
        if constexpr (C) {
            mk<int, true>(
                w,
                "xform(+5,-5)",
                {h.node},
                h.h.xform(zug::map([](int x) { return x + 5; }),
                          zug::map([](int x) { return x - 5; })),
                [](const vals& v) { return val{v[0][0] + 5}; },
                put_fn([](const val&, const val& x) -> std::optional<val> {
                    return val{x[0] - 5};
                }));
            break;
        }
        [[fallthrough]];
    case 2:
        if constexpr (C) {
            mk<int, true>(
                w,
                "xform(+1; filter(high), -1)",
                {h.node},
                h.h.xform(zug::map([](int x) { return x + 1; }),
                          zug::comp(zug::filter(high{}),
                                    zug::map([](int x) { return x - 1; }))),
                [](const vals& v) { return val{v[0][0] + 1}; },
                put_fn([](const val&, const val& x) -> std::optional<val> {
                    if (!high{}(x[0]))
                        return std::nullopt;
                    return val{x[0] - 1};
                }));
            break;
        }
        [[fallthrough]];
    case 3:
        MK_READER(int, "map(half)", h.h.map(half{}), fn1<half, int>({}));
        break;
    case 4:
        MK_READER(P, "map(spread)", h.h.map(spread{}), fn1<spread, int>({}));
        break;
    case 5:
        if (can_filter(w, h))
            MK_READER(
                int,
                "filter(odd)",
                h.h.filter(odd{}),
                [](const vals& v) { return v[0]; },
                put_t{},
                pred1<odd, int>({}));
        break;
    case 6:
        if (can_filter(w, h))
            MK_READER(
                int,
                "filter(high)|map(plus_mod)",
                h.h.filter(high{}).map(plus_mod{}),
                fn1<plus_mod, int>({}),
                put_t{},
                pred1<high, int>({}));
        break;
    default:
        MK_READER(
            P,
            "xform(map(plus_mod)|map(spread))",
            h.h.xform(zug::comp(zug::map(plus_mod{}), zug::map(spread{}))),
            [](const vals& v) { return enc(spread{}(plus_mod{}(v[0][0]))); });
        break;
    }
}
template void derive_one<true>(world&, handle<int, true>&);
template void derive_one<false>(world&, handle<int, false>&);

} // namespace graph
