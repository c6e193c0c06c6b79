// Values derived from the other types.
#include "graph_make.hpp"

namespace graph {

template <bool C>
void derive_one(world& w, handle<Q, C>& h)
{
    auto& c = w.c;
    switch (c.below(w.opt.only_cursors ? 5 : 6)) {
    case 0:
        MK_CURSOR_OR_READER(P, "[&Q::p]", h.h[&Q::p], part(0, 2), put_part(0));
        break;
    case 1:
        MK_CURSOR_OR_READER(
            int, "[&Q::n]", h.h[&Q::n], part(2, 1), put_part(2));
        break;
    case 2:
        MK_CURSOR_OR_READER(P, "[&Q::q]", h.h[&Q::q], part(3, 2), put_part(3));
        break;
    case 3:
        MK_CURSOR_OR_READER(int,
                            "[&Q::q][&P::a]",
                            h.h[&Q::q][&P::a],
                            part(3, 1),
                            put_part(3));
        break;
    case 4:
        MK_CURSOR_OR_READER(
            int,
            "zoom(attr(&Q::p)|attr(&P::b))",
            h.h.zoom(zug::comp(lager::lenses::attr(&Q::p),
                               lager::lenses::attr(&P::b))),
            part(1, 1),
            put_part(1));
        break;
    default:
        MK_READER(int,
                  "[&Q::q].map(diff)",
                  h.h[&Q::q].map(diff{}),
                  [](const vals& v) { return val{v[0][3] - v[0][4]}; });
    }
}

template <bool C>
void derive_one(world& w, handle<M, C>& h)
{
    auto& c = w.c;
    switch (c.below(w.opt.only_cursors ? 3 : 4)) {
    case 0:
        MK_CURSOR_OR_READER(int,
                            "zoom(first)",
                            h.h.zoom(lager::lenses::first),
                            part(0, 1),
                            put_part(0));
        break;
    case 1:
        MK_CURSOR_OR_READER(int,
                            "zoom(second)",
                            h.h.zoom(lager::lenses::second),
                            part(1, 1),
                            put_part(1));
        break;
    case 2:
        MK_CURSOR_OR_READER(
            int,
            "zoom(total_m)",
            h.h.zoom(total_m),
            [](const vals& v) { return val{v[0][0] + v[0][1]}; },
            put_fn([](const val& p, const val& x) -> std::optional<val> {
                return val{p[0], x[0] - p[0]};
            }));
        break;
    default:
        MK_READER(int,
                  "map(sum)",
                  h.h.map([](const M& m) {
                      return std::get<0>(m) + std::get<1>(m);
                  }),
                  [](const vals& v) { return val{v[0][0] + v[0][1]}; });
    }
}

template <bool C>
void derive_one(world& w, handle<N, C>& h)
{
    auto& c = w.c;
    switch (c.below(2)) {
    case 0:
        MK_CURSOR_OR_READER(P,
                            "zoom(first)",
                            h.h.zoom(lager::lenses::first),
                            part(0, 2),
                            put_part(0));
        break;
    default:
        MK_CURSOR_OR_READER(
            int,
            "zoom(element<0>|attr(&P::b))",
            h.h.zoom(zug::comp(lager::lenses::element<0>,
                               lager::lenses::attr(&P::b))),
            part(1, 1),
            put_part(1));
    }
}

template <bool C>
void derive_one(world& w, handle<U, C>& h)
{
    auto& c = w.c;
    switch (c.below(w.opt.only_cursors ? 2 : 3)) {
    case 0:
        MK_CURSOR_OR_READER(
            int, "[&U::a]", h.h[&U::a], part(0, 1), put_part(0));
        break;
    case 1:
        MK_CURSOR_OR_READER(
            U,
            "zoom(swapped_u)",
            h.h.zoom(swapped_u),
            ([](const vals& v) {
                return val{v[0][1], v[0][0]};
            }),
            put_fn([](const val&, const val& x) -> std::optional<val> {
                return val{x[1], x[0]};
            }));
        break;
    default:
        MK_READER(U, "map(flip_u)", h.h.map(flip_u{}), [](const vals& v) {
            return val{v[0][1], v[0][0]};
        });
    }
}
template void derive_one<true>(world&, handle<Q, true>&);
template void derive_one<false>(world&, handle<Q, false>&);
template void derive_one<true>(world&, handle<M, true>&);
template void derive_one<false>(world&, handle<M, false>&);
template void derive_one<true>(world&, handle<N, true>&);
template void derive_one<false>(world&, handle<N, false>&);
template void derive_one<true>(world&, handle<U, true>&);
template void derive_one<false>(world&, handle<U, false>&);

} // namespace graph
