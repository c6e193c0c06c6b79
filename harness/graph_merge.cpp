// Merges, and choosing what to derive.
#include "graph_make.hpp"

namespace graph {

// ---- merges -----------------------------------------------------------------

template <typename A, bool CA, typename B, bool CB>
void merge_two(world& w, handle<A, CA>& a, handle<B, CB>& b)
{
    auto& c           = w.c;
    constexpr bool C  = CA && CB;
    using T           = std::tuple<A, B>;
    constexpr auto wa = width<A>();
    auto name         = std::string{"merge"};
    auto eval         = eval_t{[](const vals& v) {
        auto r = v[0];
        r.insert(r.end(), v[1].begin(), v[1].end());
        return r;
    }};
    auto put = put_t{[](const vals&, const val& x) -> std::optional<vals> {
        return vals{cut(x, 0, wa), cut(x, wa, x.size() - wa)};
    }};
    auto ps  = std::vector<int>{a.node, b.node};
    auto k   = c.below(4);
    if (k == 1 && !w.opt.only_cursors) {
        if constexpr (std::is_same_v<A, int>)
            mk<int, false>(w,
                           "with.map(add2)",
                           ps,
                           lager::reader<int>{
                               lager::with(a.h, b.h).map(add2{})},
                           [](const vals& v) {
                               return val{v[0][0] + v[1][0]};
                           });
        else
            mk<int, false>(
                w,
                "with.map(add_pi)",
                ps,
                lager::reader<int>{lager::with(a.h, b.h).map(add_pi{})},
                [](const vals& v) {
                    return val{add_pi{}(as<P>(v[0]), v[1][0])};
                });
        return;
    }
    if (k == 2) {
        if constexpr (std::is_same_v<A, int>) {
            auto ev = [](const vals& v) { return val{v[0][0] + v[1][0]}; };
            if constexpr (C)
                mk<int, true>(
                    w,
                    "with.zoom(total_m)",
                    ps,
                    lager::cursor<int>{lager::with(a.h, b.h).zoom(total_m)},
                    ev,
                    [](const vals& p, const val& x) -> std::optional<vals> {
                        return vals{p[0], val{x[0] - p[0][0]}};
                    });
            else
                mk<int, false>(
                    w,
                    "with.zoom(total_m)",
                    ps,
                    lager::reader<int>{lager::with(a.h, b.h).zoom(total_m)},
                    ev);
            return;
        }
    }
    if constexpr (C)
        mk<T, true>(w,
                    name,
                    ps,
                    lager::cursor<T>{lager::with(a.h, b.h)},
                    eval,
                    put);
    else
        mk<T, false>(
            w, name, ps, lager::reader<T>{lager::with(a.h, b.h)}, eval);
}

template <typename Fn>
bool with_int(any_handle& h, Fn fn)
{
    if (auto p = dynamic_cast<handle<int, true>*>(&h))
        return fn(*p), true;
    if (auto p = dynamic_cast<handle<int, false>*>(&h))
        return fn(*p), true;
    return false;
}
template <typename Fn>
bool with_p(any_handle& h, Fn fn)
{
    if (auto p = dynamic_cast<handle<P, true>*>(&h))
        return fn(*p), true;
    if (auto p = dynamic_cast<handle<P, false>*>(&h))
        return fn(*p), true;
    return false;
}

void world::derive()
{
    if (ns.size() > 40)
        return;
    auto h = pick(false);
    if (!h)
        return;
    if (c.chance(1, 3)) {
        auto o = pick(false);
        if (!o || o->node == h->node)
            return;
        if (with_int(*o, [&](auto& b) {
                auto done = with_int(*h, [&](auto& a) {
                    if (!opt.only_cursors && c.chance(1, 6)) {
                        if (auto t = pick(false);
                            t && t->node != a.node && t->node != b.node)
                            if (auto q =
                                    dynamic_cast<handle<int, false>*>(t)) {
                                mk<int, false>(
                                    *this,
                                    "with.map(max3)",
                                    {a.node, b.node, q->node},
                                    lager::reader<int>{
                                        lager::with(a.h, b.h, q->h)
                                            .map(max3{})},
                                    [](const vals& v) {
                                        return val{max3{}(
                                            v[0][0], v[1][0], v[2][0])};
                                    });
                                return;
                            }
                    }
                    merge_two(*this, a, b);
                });
                if (!done)
                    with_p(*h, [&](auto& a) { merge_two(*this, a, b); });
            }))
            return;
    }
    h->derive(*this);
}

} // namespace graph
