// Lenses next to a plain reference of what they must do, and their laws.
#pragma once

#include "lens_types.hpp"

#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/util.hpp>

#include <functional>
#include <string>

namespace lt {

// what a lens must do, written without lenses
template <typename W_, typename P_>
struct ref
{
    using W = W_;
    using P = P_;
    std::string name;
    std::function<P(const W&)> get;
    std::function<W(const W&, const P&)> put;
};

template <typename W, typename P, typename Q>
ref<W, Q> then(const ref<W, P>& a, const ref<P, Q>& b)
{
    return {a.name + "|" + b.name,
            [=](const W& w) { return b.get(a.get(w)); },
            [=](const W& w, const Q& q) {
                return a.put(w, b.put(a.get(w), q));
            }};
}

template <typename Lens, typename R>
struct entry
{
    Lens l;
    R r;
};
template <typename Lens, typename R>
entry<Lens, R> mk(Lens l, R r)
{
    return {std::move(l), std::move(r)};
}

inline void same(Case& c, bool ok, const std::string& name, const char* what)
{
    if (!ok)
        c.fail("lens " + name + ": " + what);
}

// the lens does what the reference does, for wholes of every value category,
// and nothing else is touched
template <typename Lens, typename W, typename P>
void check_lens(Case& c, const Lens& l, const ref<W, P>& r, bool law = true)
{
    auto w  = W{};
    auto p1 = P{};
    auto p2 = P{};
    gen(c, w);
    gen(c, p1);
    gen(c, p2);
    auto const w0 = w;
    auto const p0 = p1;
    auto const want_view = r.get(w0);
    auto const want_set  = r.put(w0, p0);
    c.log("lens ", r.name);
    c.log("whole ", str(w0));
    c.log("part  ", str(p0));
    c.nontrivial(!(want_view == p0));

    {
        P v = lager::view(l, w);
        same(c, v == want_view, r.name, "view of an lvalue");
        P v2 = lager::view(l, std::as_const(w));
        same(c, v2 == want_view, r.name, "view of a const lvalue");
        same(c, w == w0, r.name, "view changed the whole");
        auto tmp = w0;
        P v3     = lager::view(l, std::move(tmp));
        same(c, v3 == want_view, r.name, "view of an rvalue");
    }
    {
        W s = lager::set(l, w, p1);
        same(c, s == want_set, r.name, "set in an lvalue");
        same(c, w == w0, r.name, "set changed the whole passed as an lvalue");
        same(c, p1 == p0, r.name, "set changed the part passed as an lvalue");
        W s2 = lager::set(l, std::as_const(w), std::as_const(p1));
        same(c, s2 == want_set, r.name, "set in a const lvalue");
        auto tmp = w0;
        W s3     = lager::set(l, std::move(tmp), p1);
        same(c, s3 == want_set, r.name, "set in an rvalue");
        same(c, p1 == p0, r.name, "set changed the part passed as an lvalue");
        auto tmp2 = w0;
        auto part = p0;
        W s4      = lager::set(l, std::move(tmp2), std::move(part));
        same(c, s4 == want_set, r.name, "set of an rvalue in an rvalue");
    }
    {
        int calls = 0;
        P seen{};
        auto fn = [&](auto&& x) -> P {
            ++calls;
            seen = std::forward<decltype(x)>(x);
            return p2;
        };
        auto const want = r.put(w0, p2);
        W o             = lager::over(l, w, fn);
        same(c, o == want, r.name, "over an lvalue");
        same(c, calls == 1, r.name, "over does not call the function once");
        same(c, seen == want_view, r.name, "over passes a wrong part");
        auto const_fn = [&](const P& x) -> P {
            ++calls;
            seen = x;
            return p2;
        };
        W o1 = lager::over(l, std::as_const(w), const_fn);
        same(c, o1 == want, r.name, "over a const lvalue");
        same(c, w == w0, r.name, "over changed the whole passed as an lvalue");
        calls    = 0;
        auto tmp = w0;
        W o2     = lager::over(l, std::move(tmp), fn);
        same(c, o2 == want, r.name, "over an rvalue");
        same(c, seen == want_view, r.name, "over an rvalue passes a wrong part");
        same(c, calls == 1, r.name, "over does not call the function once");
        // a function may return a reference to something that lives on
        auto other  = p2;
        auto ref_fn = [&](auto&&) -> P& { return other; };
        W o3        = lager::over(l, w, ref_fn);
        same(c, o3 == want, r.name, "over with a function returning a reference");
        same(c, other == p2, r.name, "over moved from what the function refers to");
    }
    if (!law)
        return;
    {
        W s = lager::set(l, w, p1);
        P v = lager::view(l, s);
        same(c, v == p0, r.name, "view after set is not what was set");
        P own = lager::view(l, w);
        W u   = lager::set(l, w, own);
        same(c, u == w0, r.name, "setting what was viewed changes the whole");
        W a = lager::set(l, lager::set(l, w, p1), p2);
        W b = lager::set(l, w, p2);
        same(c, a == b, r.name, "the last of two sets does not win");
    }
}

// ---- the total lenses by type of the whole ----------------------------------

template <typename W, typename P>
ref<W, P> member(const char* name, P W::*m)
{
    return {name,
            [=](const W& w) { return w.*m; },
            [=](const W& w, const P& p) {
                auto r = w;
                r.*m   = p;
                return r;
            }};
}
template <std::size_t I, typename W>
auto nth(const char* name)
{
    using P = std::decay_t<decltype(std::get<I>(std::declval<W>()))>;
    return ref<W, P>{name,
                     [=](const W& w) { return std::get<I>(w); },
                     [=](const W& w, const P& p) {
                         auto r         = w;
                         std::get<I>(r) = p;
                         return r;
                     }};
}

namespace L = lager::lenses;

inline auto in_swapped() // a bijection
{
    return L::getset(
        [](const In& x) {
            return In{~x.n, std::string(x.s.rbegin(), x.s.rend())};
        },
        [](const In&, In v) {
            return In{~v.n, std::string(v.s.rbegin(), v.s.rend())};
        });
}

inline auto n_by_value() // takes the whole by value to get
{
    return L::getset([](In x) { return x.n; },
                     [](In x, int v) {
                         x.n = v;
                         return x;
                     });
}

template <typename T>
struct type
{};

inline auto lenses_of(type<In>)
{
    using T = std::tuple<int, std::string>;
    return std::make_tuple(
        mk(L::attr(&In::n), member("n", &In::n)),
        mk(L::attr(&In::s), member("s", &In::s)),
        mk(L::attr(&In::n, &In::s),
           ref<In, T>{"(n,s)",
                      [](const In& x) {
                          return T{x.n, x.s};
                      },
                      [](const In&, const T& t) {
                          return In{std::get<0>(t), std::get<1>(t)};
                      }}),
        mk(L::getset([](auto&& x) -> decltype(auto) { return (std::forward<decltype(x)>(x).s); },
                     [](In x, std::string v) {
                         x.s = std::move(v);
                         return x;
                     }),
           member("getset(s)", &In::s)),
        mk(L::getset([](auto x) { return std::move(x.s); },
                     [](auto&& x, auto&& v) {
                         In r = LAGER_FWD(x);
                         r.s  = LAGER_FWD(v);
                         return r;
                     }),
           member("getset_by_value(s)", &In::s)),
        mk(n_by_value(), member("getset_by_value(n)", &In::n)));
}
inline auto lenses_of(type<std::string>)
{
    return std::make_tuple(mk(lager::identity,
                              ref<std::string, std::string>{
                                  "identity",
                                  [](auto& x) { return x; },
                                  [](auto&, auto& v) { return v; }}));
}
inline auto lenses_of(type<int>)
{
    return std::make_tuple(
        mk(L::getset([](int x) { return ~x; }, [](int, int v) { return ~v; }),
           ref<int, int>{"not",
                         [](int x) { return ~x; },
                         [](int, int v) { return ~v; }}));
}
inline auto lenses_of(type<std::pair<In, int>>)
{
    using W = std::pair<In, int>;
    using P = std::pair<std::string, int>;
    return std::make_tuple(
        mk(L::first, nth<0, W>("first")),
        mk(L::second, nth<1, W>("second")),
        mk(L::attr(&W::first), member("attr(first)", &W::first)),
        mk(L::zip(L::attr(&In::s), lager::identity),
           ref<W, P>{"zip(s,identity)",
                     [](const W& w) {
                         return P{w.first.s, w.second};
                     },
                     [](const W& w, const P& p) {
                         return W{In{w.first.n, p.first}, p.second};
                     }}),
        mk(L::zip(n_by_value(), lager::identity),
           ref<W, std::pair<int, int>>{
               "zip(getset_by_value(n),identity)",
               [](const W& w) {
                   return std::pair<int, int>{w.first.n, w.second};
               },
               [](const W& w, const std::pair<int, int>& p) {
                   return W{In{p.first, w.first.s}, p.second};
               }}));
}
inline auto lenses_of(type<std::tuple<int, In, std::string>>)
{
    using W = std::tuple<int, In, std::string>;
    using P = std::tuple<int, std::string, std::string>;
    using F = std::tuple<std::string, int>;
    return std::make_tuple(
        mk(L::element<0>, nth<0, W>("element<0>")),
        mk(L::element<1>, nth<1, W>("element<1>")),
        mk(L::element<2>, nth<2, W>("element<2>")),
        mk(L::zip(lager::identity, L::attr(&In::s), lager::identity),
           ref<W, P>{"zip(identity,s,identity)",
                     [](const W& w) {
                         return P{std::get<0>(w),
                                  std::get<1>(w).s,
                                  std::get<2>(w)};
                     },
                     [](const W& w, const P& p) {
                         return W{std::get<0>(p),
                                  In{std::get<1>(w).n, std::get<1>(p)},
                                  std::get<2>(p)};
                     }}),
        mk(L::fan(L::element<2>, zug::comp(L::element<1>, L::attr(&In::n))),
           ref<W, F>{"fan(element<2>,element<1>|n)",
                     [](const W& w) {
                         return F{std::get<2>(w), std::get<1>(w).n};
                     },
                     [](const W& w, const F& f) {
                         return W{std::get<0>(w),
                                  In{std::get<1>(f), std::get<1>(w).s},
                                  std::get<0>(f)};
                     }}));
}
inline auto lenses_of(type<std::tuple<std::string, int>>)
{
    using W = std::tuple<std::string, int>;
    return std::make_tuple(mk(L::first, nth<0, W>("first")));
}
inline auto lenses_of(type<std::tuple<int, std::string>>)
{
    using W = std::tuple<int, std::string>;
    return std::make_tuple(mk(L::second, nth<1, W>("second")));
}
inline auto lenses_of(type<std::pair<int, int>>)
{
    using W = std::pair<int, int>;
    return std::make_tuple(mk(L::second, nth<1, W>("second")));
}
inline auto lenses_of(type<std::pair<std::string, int>>)
{
    using W = std::pair<std::string, int>;
    return std::make_tuple(mk(L::first, nth<0, W>("first")));
}
inline auto lenses_of(type<std::tuple<int, std::string, std::string>>)
{
    using W = std::tuple<int, std::string, std::string>;
    return std::make_tuple(mk(L::element<2>, nth<2, W>("element<2>")));
}
inline auto lenses_of(type<Mid>)
{
    using F = std::tuple<In, std::pair<In, int>, In>;
    return std::make_tuple(
        mk(L::attr(&Mid::a), member("a", &Mid::a)),
        mk(L::attr(&Mid::p), member("p", &Mid::p)),
        mk(L::attr(&Mid::t), member("t", &Mid::t)),
        mk(L::fan(L::attr(&Mid::a),
                  L::attr(&Mid::p),
                  zug::comp(L::attr(&Mid::t), L::element<1>)),
           ref<Mid, F>{"fan(a,p,t|element<1>)",
                       [](const Mid& w) {
                           return F{w.a, w.p, std::get<1>(w.t)};
                       },
                       [](const Mid& w, const F& f) {
                           return Mid{std::get<0>(f),
                                      std::get<1>(f),
                                      {std::get<0>(w.t),
                                       std::get<2>(f),
                                       std::get<2>(w.t)}};
                       }}));
}
inline auto lenses_of(type<std::tuple<In, std::pair<In, int>, In>>)
{
    using W = std::tuple<In, std::pair<In, int>, In>;
    return std::make_tuple(mk(L::element<1>, nth<1, W>("element<1>")),
                           mk(L::element<2>, nth<2, W>("element<2>")));
}
inline auto lenses_of(type<immer::box<Mid>>)
{
    using W = immer::box<Mid>;
    return std::make_tuple(
        mk(L::unbox,
           ref<W, Mid>{"unbox",
                       [](const W& w) { return w.get(); },
                       [](const W&, const Mid& m) { return W{m}; }}));
}
inline auto lenses_of(type<std::array<In, 2>>)
{
    using W = std::array<In, 2>;
    return std::make_tuple(mk(L::first, nth<0, W>("first")),
                           mk(L::element<1>, nth<1, W>("element<1>")));
}
inline auto lenses_of(type<std::tuple<Mid, std::string>>)
{
    using W = std::tuple<Mid, std::string>;
    return std::make_tuple(mk(L::first, nth<0, W>("first")),
                           mk(L::second, nth<1, W>("second")));
}
inline auto lenses_of(type<Out>)
{
    using T = std::tuple<Mid, std::string>;
    return std::make_tuple(
        mk(L::attr(&Out::m), member("m", &Out::m)),
        mk(zug::comp(L::attr(&Out::bm), L::unbox),
           then(member("bm", &Out::bm),
                ref<immer::box<Mid>, Mid>{
                    "unbox",
                    [](auto& w) { return w.get(); },
                    [](auto&, auto& m) { return immer::box<Mid>{m}; }})),
        mk(L::attr(&Out::arr), member("arr", &Out::arr)),
        mk(L::attr(&Out::m, &Out::s),
           ref<Out, T>{"(m,s)",
                       [](const Out& w) {
                           return T{w.m, w.s};
                       },
                       [](const Out& w, const T& t) {
                           auto r = w;
                           r.m    = std::get<0>(t);
                           r.s    = std::get<1>(t);
                           return r;
                       }}));
}

// ---- choosing a composition -------------------------------------------------

template <typename Tuple, typename Fn, std::size_t I = 0>
void at_index(Tuple& t, std::size_t i, Fn&& fn)
{
    if constexpr (I < std::tuple_size_v<Tuple>) {
        if (i == I)
            fn(std::get<I>(t));
        else
            at_index<Tuple, Fn, I + 1>(t, i, std::forward<Fn>(fn));
    }
}

} // namespace lt
