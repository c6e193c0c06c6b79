// C13: the same chain of steps built as one expression (world A) and one
// materialised handle per step (world B); both live through one history.
#pragma once

#include <cassert>

#include <pbt.hpp>

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

namespace ch {

using pbt::Case;

struct P
{
    int a = 0;
    int b = 0;
    bool operator==(const P& o) const { return a == o.a && b == o.b; }
};

using T2 = std::tuple<int, P>;

inline std::string str(int x) { return std::to_string(x); }
inline std::string str(const P& x)
{
    return "{" + str(x.a) + "," + str(x.b) + "}";
}
inline std::string str(const T2& x)
{
    return "(" + str(std::get<0>(x)) + "," + str(std::get<1>(x)) + ")";
}

inline int wrap(int x) { return ((x % 24) + 24) % 24; }

// the functions, told apart at run time so that there are few types
struct fi
{
    int k = 0, c = 0;
    int operator()(int x) const
    {
        switch (k) {
        case 0:
            return wrap(x + c);
        case 1:
            return wrap(x * c);
        case 2:
            return wrap(c - x);
        default:
            return x / 2;
        }
    }
};
struct fp
{
    fi f, g;
    bool swap = false;
    P operator()(P x) const
    {
        return swap ? P{f(x.b), g(x.a)} : P{f(x.a), g(x.b)};
    }
};
struct fpi
{
    fi f, g;
    int operator()(P x) const { return wrap(f(x.a) + 2 * g(x.b)); }
};
struct fip
{
    fi f, g;
    P operator()(int x) const { return {f(x), g(x)}; }
};
struct f2
{
    fi f;
    fpi g;
    int operator()(int x, P y) const { return wrap(f(x) - g(y)); }
};
struct f2p
{
    fi f;
    fp g;
    P operator()(int x, P y) const
    {
        auto z = g(y);
        return {f(x), z.b};
    }
};
struct fi2
{
    fi f;
    fip g;
    T2 operator()(int x) const { return {f(x), g(x)}; }
};
template <typename F>
struct tupled
{
    F f;
    auto operator()(T2 t) const { return std::apply(f, t); }
};
struct pi
{
    int m = 2, r = 0;
    bool operator()(int x) const { return wrap(x) % m != r; }
};
struct pp
{
    pi f;
    bool second = false;
    bool operator()(P x) const { return f(second ? x.b : x.a); }
};
struct p2
{
    pi f;
    pp g;
    bool operator()(int x, P y) const { return f(x) || g(y); }
};

inline fi gen_fi(Case& c)
{
    return {static_cast<int>(c.below(4)), static_cast<int>(1 + c.below(5))};
}
inline fp gen_fp(Case& c) { return {gen_fi(c), gen_fi(c), c.flip()}; }
inline fpi gen_fpi(Case& c) { return {gen_fi(c), gen_fi(c)}; }
inline fip gen_fip(Case& c) { return {gen_fi(c), gen_fi(c)}; }
inline pi gen_pi(Case& c)
{
    auto m = static_cast<int>(2 + c.below(3));
    return {m, static_cast<int>(c.below(m))};
}
inline pp gen_pp(Case& c) { return {gen_pi(c), c.flip()}; }

// arbitrary lenses; nothing here needs the laws
struct set_i
{
    fi f;
    int d = 0;
    int operator()(int w, int x) const { return wrap(f(x) + d * w); }
};
struct set_p
{
    fp f;
    bool keep = false;
    P operator()(P w, P x) const
    {
        auto y = f(x);
        return keep ? P{y.a, w.b} : y;
    }
};
struct set_t
{
    fi f;
    T2 operator()(T2 w, int x) const
    {
        auto [a, p] = w;
        return T2{f(x), P{x, wrap(p.b + a)}};
    }
};
inline auto gen_li(Case& c)
{
    auto g = gen_fi(c);
    return lager::lenses::getset(
        g, set_i{gen_fi(c), static_cast<int>(c.below(2))});
}
inline auto gen_lp(Case& c)
{
    auto g = gen_fp(c);
    return lager::lenses::getset(g, set_p{gen_fp(c), c.flip()});
}
inline auto gen_lt(Case& c)
{
    auto g = f2{gen_fi(c), gen_fpi(c)};
    return lager::lenses::getset(tupled<f2>{g}, set_t{gen_fi(c)});
}
inline auto gen_attr(Case& c) { return c.flip() ? &P::a : &P::b; }

inline int one_of(Case& c, std::initializer_list<int> l)
{
    return *(l.begin() + c.below(l.size()));
}

inline int gen(Case& c, int) { return static_cast<int>(c.below(24)); }
inline P gen(Case& c, P) { return {gen(c, 0), gen(c, 0)}; }
inline T2 gen(Case& c, T2) { return {gen(c, 0), gen(c, P{})}; }

template <typename T>
inline const char* tname = "int";
template <>
inline const char* tname<P> = "P";
template <>
inline const char* tname<T2> = "(int,P)";

template <typename T, bool Cur>
using h = std::conditional_t<Cur, lager::cursor<T>, lager::reader<T>>;

// ---- the two worlds ---------------------------------------------------------

struct end_base
{
    virtual ~end_base()                        = default;
    virtual std::string show()                 = 0;
    virtual bool writable()                    = 0;
    virtual std::string write(Case& c, int op) = 0;
    virtual void drop(bool b)                  = 0;
};

struct world
{
    struct root_t
    {
        std::function<void(std::vector<int>)> commit;
        std::function<std::string()> show;
    };

    Case& c;
    // where the next chain starts: handles of A and of B
    template <typename T, bool Cur>
    using starts = std::vector<std::pair<h<T, Cur>, h<T, Cur>>>;
    starts<int, true> ci;
    starts<P, true> cp;
    starts<int, false> ri;
    starts<P, false> rp;
    std::vector<std::unique_ptr<end_base>> ends;
    std::vector<std::vector<std::string>> log_a, log_b;
    std::vector<std::string> values; // as of the last comparison
    std::string name; // of the chain being built
    int fused = 0, longest = 0;
    bool skipped = false;

    template <typename T, bool Cur>
    starts<T, Cur>& at()
    {
        if constexpr (std::is_same_v<T, int>) {
            if constexpr (Cur)
                return ci;
            else
                return ri;
        } else {
            if constexpr (Cur)
                return cp;
            else
                return rp;
        }
    }
};

template <typename T, bool Cur>
struct end : end_base
{
    world& w;
    int id;
    h<T, Cur> a, b;
    bool dropped = false;

    end(world& w_, int id_, h<T, Cur> a_, h<T, Cur> b_)
        : w{w_}
        , id{id_}
        , a{std::move(a_)}
        , b{std::move(b_)}
    {
        a.watch([this](const T& x) { w.log_a[id].push_back(str(x)); });
        b.watch([this](const T& x) { w.log_b[id].push_back(str(x)); });
    }
    std::string show() override
    {
        auto x = str(a.get()), y = str(b.get());
        if (x != y)
            w.c.fail("h" + str(id) + ": as one expression " + x +
                     ", step by step " + y);
        return x;
    }
    bool writable() override { return Cur; }
    void drop(bool) override {}
    std::string write(Case& c, int op) override
    {
        if constexpr (Cur) {
            auto x = gen(c, T{});
            if (op == 0) {
                a.set(x);
                b.set(x);
                return "set " + str(x);
            } else if (op == 1) {
                auto wa = lager::writer<T>{a};
                lager::writer<T> wb = b;
                wa.set(x);
                wb.set(x);
                return "writer set " + str(x);
            } else if (op == 2) {
                auto wa = lager::writer<T>{a};
                auto f  = [&](T y) { return mix(y, x); };
                wa.update(f);
                b.update(f);
                return "writer update " + str(x);
            }
            if constexpr (std::is_same_v<T, P>) {
                // writers can be zoomed into as well
                if (op == 4) {
                    auto m               = gen_attr(c);
                    auto wa              = lager::writer<P>{a};
                    lager::writer<int> u = wa[m];
                    lager::cursor<int> v = b[m];
                    u.set(x.a);
                    v.set(x.a);
                    return "writer[member] set " + str(x.a);
                } else if (op == 5) {
                    auto l  = gen_lp(c);
                    auto m  = gen_attr(c);
                    auto wa = lager::writer<P>{a};
                    lager::writer<int> u =
                        wa.zoom(l).zoom(lager::lenses::attr(m));
                    lager::cursor<P> v   = b.zoom(l);
                    lager::cursor<int> z = v[m];
                    u.set(x.a);
                    z.set(x.a);
                    return "writer.zoom.zoom set " + str(x.a);
                } else if (op == 6) {
                    auto f = gen_fp(c), g = gen_fp(c);
                    auto wa            = lager::writer<P>{a};
                    lager::writer<P> u = wa.xform(zug::map(f), zug::map(g));
                    lager::cursor<P> v = b.xform(zug::map(f), zug::map(g));
                    u.set(x);
                    v.set(x);
                    return "writer.xform set " + str(x);
                }
            }
            auto f = [&](T y) { return mix(y, x); };
            a.update(f);
            b.update(f);
            return "update " + str(x);
        }
        return {};
    }
    static int mix(int y, int x) { return wrap(y + x); }
    static P mix(P y, P x) { return {wrap(y.a + x.a), y.b}; }
    static T2 mix(T2 y, T2 x)
    {
        return T2{mix(std::get<0>(y), std::get<0>(x)), std::get<1>(y)};
    }
};

template <typename T, bool Cur>
void finish(world& w, h<T, Cur> a, h<T, Cur> b)
{
    auto id = static_cast<int>(w.ends.size());
    w.log_a.emplace_back();
    w.log_b.emplace_back();
    w.values.push_back(str(b.get()));
    w.c.log("h", id, " = ", w.name, " : ", Cur ? "cursor" : "reader", " of ",
            tname<T>, " -> ", str(b.get()));
    if constexpr (!std::is_same_v<T, T2>)
        w.at<T, Cur>().emplace_back(a, b);
    w.ends.push_back(
        std::make_unique<end<T, Cur>>(w, id, std::move(a), std::move(b)));
    w.ends.back()->show();
    w.longest = std::max(w.longest, w.fused);
}

// A's expression becomes a handle
template <typename T, bool Cur, typename E>
void materialise(world& w, E&& e, h<T, Cur> b)
{
    if constexpr (Cur) {
        switch (w.c.below(4)) {
        case 0:
            finish<T, true>(w, lager::cursor<T>{std::move(e)}, b);
            break;
        case 1: {
            lager::cursor<T> x = std::move(e);
            finish<T, true>(w, x, b);
            break;
        }
        case 2:
            finish<T, true>(w, std::move(e).make(), b);
            break;
        default: {
            // only a reader was declared
            w.name += " as reader";
            lager::reader<T> x = std::move(e);
            finish<T, false>(w, x, b);
        }
        }
    } else {
        switch (w.c.below(3)) {
        case 0:
            finish<T, false>(w, lager::reader<T>{std::move(e)}, b);
            break;
        case 1: {
            lager::reader<T> x = std::move(e);
            finish<T, false>(w, x, b);
            break;
        }
        default:
            finish<T, false>(w, std::move(e).make(), b);
        }
    }
}

// Reduced: fewer kinds of steps, for deeper static chains.
enum kinds
{
    all,
    few
};

template <int D, kinds K, typename T, bool Cur, bool Two, typename E>
void walk(world& w, E&& e, h<T, Cur> b);

// `Two`: the last step was a two-way transformation
template <int D, kinds K, typename U, bool CurU, bool Two = false, typename E>
void next(world& w, E&& e, h<U, CurU> b)
{
    ++w.fused;
    if constexpr (D <= 1)
        materialise<U, CurU>(w, std::move(e), b);
    else
        walk<D - 1, K, U, CurU, Two>(w, std::move(e), b);
}

// one more step, on the expression `e` (anything that has the methods) of A
// and on the handle `b` of B
template <int D, kinds K, typename T, bool Cur, bool Two = false, typename E>
void step(world& w, E&& e, h<T, Cur> b)
{
    auto& c = w.c;
    constexpr bool is_int = std::is_same_v<T, int>;
    constexpr bool is_p   = std::is_same_v<T, P>;
    enum op
    {
        map_same,
        filter,
        zoom,
        other, // to the other type
        both,  // two steps in one transducer
        xform_same,
        xform_other
    };
    auto k = static_cast<int>(
        Cur ? one_of(c, {2, 3, 5, 6, 0, 1, 4}) : one_of(c, {0, 1, 2, 3, 4}));
    if constexpr (K == few)
        k = Cur ? one_of(c, {2, 5}) : one_of(c, {0, 1, 2});
    switch (k) {
    case map_same:
        if constexpr (K == few && Cur) {
        } else if constexpr (is_int) {
            auto f = gen_fi(c);
            w.name += ".map";
            next<D, K, int, false>(w, std::forward<E>(e).map(f), b.map(f));
        } else if constexpr (is_p) {
            auto f = gen_fp(c);
            w.name += ".map";
            next<D, K, P, false>(w, std::forward<E>(e).map(f), b.map(f));
        }
        break;
    case filter:
        if constexpr (K == few && Cur) {
        } else if constexpr (is_int) {
            auto f = gen_pi(c);
            w.name += ".filter";
            if (!f(b.get()))
                w.skipped = true;
            else
                next<D, K, int, false>(
                    w, std::forward<E>(e).filter(f), b.filter(f));
        } else if constexpr (is_p) {
            auto f = gen_pp(c);
            w.name += ".filter";
            if (!f(b.get()))
                w.skipped = true;
            else
                next<D, K, P, false>(
                    w, std::forward<E>(e).filter(f), b.filter(f));
        }
        break;
    case zoom:
        if constexpr (is_int) {
            auto l = gen_li(c);
            if (c.flip()) {
                w.name += ".zoom";
                next<D, K, int, Cur>(w, std::forward<E>(e).zoom(l), b.zoom(l));
            } else {
                w.name += "[lens]";
                next<D, K, int, Cur>(w, std::forward<E>(e)[l], b[l]);
            }
        } else if constexpr (is_p) {
            auto l = gen_lp(c);
            if (c.flip()) {
                w.name += ".zoom";
                next<D, K, P, Cur>(w, std::forward<E>(e).zoom(l), b.zoom(l));
            } else {
                w.name += "[lens]";
                next<D, K, P, Cur>(w, std::forward<E>(e)[l], b[l]);
            }
        }
        break;
    case other:
        if constexpr (K == few) {
        } else if constexpr (is_int) {
            auto f = gen_fip(c);
            w.name += ".map";
            next<D, K, P, false>(w, std::forward<E>(e).map(f), b.map(f));
        } else if constexpr (is_p) {
            auto m = gen_attr(c);
            if (c.flip()) {
                w.name += ".zoom(member)";
                next<D, K, int, Cur>(
                    w,
                    std::forward<E>(e).zoom(lager::lenses::attr(m)),
                    b.zoom(lager::lenses::attr(m)));
            } else {
                w.name += "[member]";
                next<D, K, int, Cur>(w, std::forward<E>(e)[m], b[m]);
            }
        }
        break;
    case both:
        if constexpr (K == few) {
        } else if constexpr (is_int) {
            auto f = gen_fi(c);
            auto p = gen_pi(c);
            w.name += ".xform(map|filter)";
            h<int, false> m = b.map(f);
            if (!p(m.get()))
                w.skipped = true;
            else
                next<D, K, int, false>(
                    w,
                    std::forward<E>(e).xform(
                        zug::comp(zug::map(f), zug::filter(p))),
                    m.filter(p));
        } else if constexpr (is_p) {
            auto f = gen_fpi(c);
            auto p = gen_pp(c);
            w.name += ".xform(filter|map)";
            if (!p(b.get()))
                w.skipped = true;
            else {
                h<P, false> m = b.filter(p);
                next<D, K, int, false>(
                    w,
                    std::forward<E>(e).xform(
                        zug::comp(zug::filter(p), zug::map(f))),
                    m.map(f));
            }
        }
        break;
    case xform_same:
        if constexpr (Cur && is_int) {
            auto f = gen_fi(c), g = gen_fi(c);
            w.name += ".xform(,)";
            next<D, K, int, true, true>(
                w,
                std::forward<E>(e).xform(zug::map(f), zug::map(g)),
                b.xform(zug::map(f), zug::map(g)));
        } else if constexpr (Cur && is_p) {
            auto f = gen_fp(c), g = gen_fp(c);
            w.name += ".xform(,)";
            next<D, K, P, true, true>(
                w,
                std::forward<E>(e).xform(zug::map(f), zug::map(g)),
                b.xform(zug::map(f), zug::map(g)));
        }
        break;
    case xform_other:
        if constexpr (K == few) {
        } else if constexpr (Cur && is_int) {
            auto f = gen_fip(c);
            auto g = gen_fpi(c);
            w.name += ".xform(,)";
            next<D, K, P, true, true>(
                w,
                std::forward<E>(e).xform(zug::map(f), zug::map(g)),
                b.xform(zug::map(f), zug::map(g)));
        } else if constexpr (Cur && is_p && !Two) {
            // `update` looks at the inputs of the node it becomes part of;
            // writing updates only a part of what was there
            auto f = gen_fpi(c);
            auto g = [k = gen_fi(c)](P old, int x) { return P{old.a, k(x)}; };
            w.name += ".xform(,update)";
            next<D, K, int, true, true>(
                w,
                std::forward<E>(e).xform(zug::map(f), lager::update(g)),
                b.xform(zug::map(f), lager::update(g)));
        }
        break;
    }
}

template <int D, kinds K, typename T, bool Cur, bool Two, typename E>
void walk(world& w, E&& e, h<T, Cur> b)
{
    if (w.c.chance(1, 4))
        materialise<T, Cur>(w, std::move(e), b);
    else
        step<D, K, T, Cur, Two>(w, std::move(e), b);
}

// a chain from an existing handle
template <int D, kinds K, typename T, bool Cur>
void chain_from(world& w, h<T, Cur> a, h<T, Cur> b)
{
    w.fused = 0;
    switch (w.c.below(4)) {
    case 0:
        w.name += "named";
        step<D, K, T, Cur>(w, a, b);
        break;
    case 1:
        w.name += "temporary";
        step<D, K, T, Cur>(w, h<T, Cur>{a}, b);
        break;
    case 2: {
        w.name += "const";
        const auto& ca = a;
        step<D, K, T, Cur>(w, ca, b);
        break;
    }
    default:
        w.name += "with()";
        step<D, K, T, Cur>(w, lager::with(a), b);
    }
}

// a chain from two handles
template <int D, bool Cur>
void chain_two(world& w,
               h<int, Cur> a1,
               h<P, Cur> a2,
               h<int, Cur> b1,
               h<P, Cur> b2)
{
    auto& c = w.c;
    w.fused = 1;
    w.name += "with(,)";
    auto e = [&] {
        return c.flip() ? lager::with(a1, a2)
                        : lager::with(h<int, Cur>{a1}, h<P, Cur>{a2});
    };
    h<T2, Cur> b = lager::with(b1, b2);
    switch (static_cast<int>(Cur ? c.below(9) : c.below(6))) {
    case 0: {
        auto f = f2{gen_fi(c), gen_fpi(c)};
        w.name += ".map";
        next<D, all, int, false>(w, e().map(f), b.map(tupled<f2>{f}));
        break;
    }
    case 1: {
        auto f = f2p{gen_fi(c), gen_fp(c)};
        w.name += ".map";
        next<D, all, P, false>(w, e().map(f), b.map(tupled<f2p>{f}));
        break;
    }
    case 2: {
        auto p = p2{gen_pi(c), gen_pp(c)};
        auto f = f2{gen_fi(c), gen_fpi(c)};
        w.name += ".filter.map";
        if (!std::apply(p, b.get()))
            w.skipped = true;
        else {
            lager::reader<T2> m = b.filter(tupled<p2>{p});
            next<D, all, int, false>(
                w, e().filter(p).map(f), m.map(tupled<f2>{f}));
        }
        break;
    }
    case 3: {
        auto l = gen_lt(c);
        w.name += ".zoom";
        next<D, all, int, Cur>(w, e().zoom(l), b.zoom(l));
        break;
    }
    case 4:
        w.name += "[second]";
        next<D, all, P, Cur>(
            w, e()[lager::lenses::second], b[lager::lenses::second]);
        break;
    case 5: {
        auto p = p2{gen_pi(c), gen_pp(c)};
        w.name += ".filter.zoom(first)";
        if (!std::apply(p, b.get()))
            w.skipped = true;
        else {
            lager::reader<T2> m = b.filter(tupled<p2>{p});
            next<D, all, int, false>(w,
                                     e().filter(p).zoom(lager::lenses::first),
                                     m.zoom(lager::lenses::first));
        }
        break;
    }
    default:
        if constexpr (Cur) {
            if (c.flip()) {
                auto f = f2{gen_fi(c), gen_fpi(c)};
                auto g = fi2{gen_fi(c), gen_fip(c)};
                w.name += ".xform(,)";
                next<D, all, int, true, true>(
                    w,
                    e().xform(zug::map(f), zug::map(g)),
                    b.xform(zug::map(tupled<f2>{f}), zug::map(g)));
            } else {
                w.fused = 0;
                materialise<T2, true>(w, e(), b);
            }
        }
    }
}

// the parts, in files of their own
void part_ci(world&, lager::cursor<int>, lager::cursor<int>);
void part_cp(world&, lager::cursor<P>, lager::cursor<P>);
void part_ri(world&, lager::reader<int>, lager::reader<int>);
void part_rp(world&, lager::reader<P>, lager::reader<P>);
void part_deep_ci(world&, lager::cursor<int>, lager::cursor<int>);
void part_deep_cp(world&, lager::cursor<P>, lager::cursor<P>);
void part_deep_ri(world&, lager::reader<int>, lager::reader<int>);
void part_deep_rp(world&, lager::reader<P>, lager::reader<P>);
void part_two_c(world&,
                lager::cursor<int>,
                lager::cursor<P>,
                lager::cursor<int>,
                lager::cursor<P>);
void part_two_r(world&,
                lager::reader<int>,
                lager::reader<P>,
                lager::reader<int>,
                lager::reader<P>);

} // namespace ch
