// Values derived from P.
#include "graph_make.hpp"

namespace graph {

template <bool C>
void derive_one(world& w, handle<P, C>& h)
{
    auto& c = w.c;
    switch (c.below(w.opt.only_cursors ? 4 : 7)) {
    case 0:
        MK_CURSOR_OR_READER(
            int, "[&P::a]", h.h[&P::a], part(0, 1), put_part(0));
        break;
    case 1:
        MK_CURSOR_OR_READER(
            int, "[&P::b]", h.h[&P::b], part(1, 1), put_part(1));
        break;
    case 2:
        MK_CURSOR_OR_READER(
            P,
            "zoom(swapped)",
            h.h.zoom(swapped),
            ([](const vals& v) {
                return val{v[0][1], v[0][0]};
            }),
            put_fn([](const val&, const val& x) -> std::optional<val> {
                return val{x[1], x[0]};
            }));
        break;
    case 3:
        MK_CURSOR_OR_READER(
            int,
            "zoom(total)",
            h.h.zoom(total),
            [](const vals& v) { return val{v[0][0] + v[0][1]}; },
            put_fn([](const val& p, const val& x) -> std::optional<val> {
                return val{p[0], x[0] - p[0]};
            }));
        break;
    case 4:
        MK_READER(int, "map(diff)", h.h.map(diff{}), fn1<diff, P>({}));
        break;
    case 5:
        if (can_filter(w, h))
            MK_READER(
                P,
                "filter(ordered)",
                h.h.filter(ordered{}),
                [](const vals& v) { return v[0]; },
                put_t{},
                pred1<ordered, P>({}));
        break;
    default:
        MK_READER(int,
                  "[&P::b].map(half)",
                  h.h[&P::b].map(half{}),
                  [](const vals& v) { return val{v[0][1] / 2}; });
    }
}
template void derive_one<true>(world&, handle<P, true>&);
template void derive_one<false>(world&, handle<P, false>&);

} // namespace graph
