// Making derived nodes: what the graph_*.cpp parts share.
#pragma once
#include "graph.hpp"

namespace graph {

using vals  = std::vector<val>;
using eval_t = std::function<val(const vals&)>;
using pass_t = std::function<bool(const vals&)>;
using put_t =
    std::function<std::optional<vals>(const vals&, const val&)>;

// registers a derived node and a handle for it
template <typename T, bool Cursor>
int mk(world& w,
       std::string what,
       std::vector<int> parents,
       std::conditional_t<Cursor, lager::cursor<T>, lager::reader<T>> h,
       eval_t eval,
       put_t put   = {},
       pass_t pass = {})
{
    mnode n;
    n.what    = what;
    n.parents = parents;
    int height = 0;
    unsigned seen = 0;
    for (auto p : parents) {
        if (seen & w.ns[p].mask)
            ++w.diamonds;
        seen |= w.ns[p].mask;
        n.mask |= w.ns[p].mask;
        height = std::max(height, w.heights[p]);
    }
    n.noeq     = std::is_same_v<T, U>;
    n.writable = Cursor;
    n.multi    = parents.size() > 1;
    n.eval     = eval;
    n.pass     = pass;
    n.put      = put;
    auto pub   = w.inputs(n, true);
    auto cur   = w.inputs(n, false);
    n.pub = !pass || pass(pub) ? eval(pub) : val(width<T>(), 0);
    n.cur = !pass || pass(cur) ? eval(cur) : n.pub;
    n.unsettled = w.mask_pending(n.mask);
    for (auto p : parents)
        n.uncertain |= w.ns[p].uncertain;
    n.altered = n.unsettled;
    w.filters += bool(pass);
    w.late += w.publications > 0;
    auto id = static_cast<int>(w.ns.size());
    w.ns.push_back(std::move(n));
    w.heights.push_back(height + 1);
    w.max_height = std::max(w.max_height, height + 1);
    auto hh      = std::make_unique<handle<T, Cursor>>(std::move(h), id);
    auto hid     = w.handle_ids;
    w.add_handle(std::move(hh));
    std::string ps;
    for (auto p : parents)
        ps += " n" + std::to_string(p);
    w.c.log("h",
            hid,
            " = n",
            id,
            " = ",
            what,
            " of",
            ps,
            " -> ",
            pbt::show(w.ns[id].pub));
    return id;
}

template <typename F, typename A>
eval_t fn1(F f)
{
    return [f](const vals& v) { return enc(f(as<A>(v[0]))); };
}
template <typename F, typename A>
pass_t pred1(F f)
{
    return [f](const vals& v) { return f(as<A>(v[0])); };
}
inline val cut(const val& v, std::size_t from, std::size_t n)
{
    return val(v.begin() + from, v.begin() + from + n);
}
inline eval_t part(std::size_t from, std::size_t n)
{
    return [=](const vals& v) { return cut(v[0], from, n); };
}
inline put_t put_part(std::size_t from)
{
    return [=](const vals& ps, const val& x) -> std::optional<vals> {
        auto r = ps[0];
        std::copy(x.begin(), x.end(), r.begin() + from);
        return vals{r};
    };
}
inline put_t put_fn(std::function<std::optional<val>(const val&, const val&)> f)
{
    return [=](const vals& ps, const val& x) -> std::optional<vals> {
        auto r = f(ps[0], x);
        if (!r)
            return std::nullopt;
        return vals{*r};
    };
}

// handle kind for a derived cursor: a cursor if the source is one, unless the
// generator prefers a reader
#define MK_CURSOR_OR_READER(T, name, expr, eval, put)                          \
    do {                                                                       \
        if constexpr (C) {                                                     \
            mk<T, true>(w, name, {h.node}, lager::cursor<T>{expr}, eval, put); \
        } else {                                                               \
            mk<T, false>(w, name, {h.node}, lager::reader<T>{expr}, eval);     \
        }                                                                      \
    } while (0)
#define MK_READER(T, name, expr, ...)                                          \
    mk<T, false>(w, name, {h.node}, lager::reader<T>{expr}, __VA_ARGS__)

inline bool can_filter(world& w, const any_handle& h)
{
    auto& n = w.ns[h.node];
    return !w.mask_pending(n.mask) && !n.unsettled && !n.uncertain;
}

// one translation unit each, they take long to compile
template <bool C>
void derive_one(world& w, handle<int, C>& h); // graph_d_int.cpp
template <bool C>
void derive_one(world& w, handle<P, C>& h); // graph_d_p.cpp
template <bool C>
void derive_one(world& w, handle<Q, C>& h); // graph_d_rest.cpp
template <bool C>
void derive_one(world& w, handle<M, C>& h);
template <bool C>
void derive_one(world& w, handle<N, C>& h);
template <bool C>
void derive_one(world& w, handle<U, C>& h);

template <typename T, bool C>
void handle<T, C>::derive(world& w)
{
    if (C && w.c.chance(1, 5)) {
        auto r = handle<T, false>{lager::reader<T>{h}, node};
        derive_one(w, r);
    } else
        derive_one(w, *this);
}

} // namespace graph
