// C15: contexts obtained from one another against composed functions.
#pragma once

#include <cassert>
#include <pbt.hpp>

#include <lager/context.hpp>
#include <lager/deps.hpp>
#include <lager/effect.hpp>

#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <variant>

namespace cx {

using str = std::string;

struct A
{
    int n;
};
struct B
{
    str s;
};
struct C
{
    int n;
};
using V = std::variant<A, B, C>;
// converts to an A
struct D
{
    int n;
    operator A() const { return {n * 2}; }
};
struct P
{
    int n;
};
struct Q
{
    int n;
};
using W = std::variant<P, Q>;
using S = std::variant<B, A>; // does not convert to V by itself
struct none
{};

inline str show_a(const A& a) { return "A" + std::to_string(a.n); }
inline str show_a(const B& a) { return "B" + a.s; }
inline str show_a(const C& a) { return "C" + std::to_string(a.n); }
inline str show_a(const V& a)
{
    return std::visit([](auto& x) { return show_a(x); }, a);
}
inline str show_a(int a) { return "int" + std::to_string(a); }
inline str show_a(double a) { return "double" + std::to_string(a); }

// A converter that handles every action
struct conv
{
    int k;
    A operator()(A a) const { return {a.n + k}; }
    B operator()(B b) const { return {b.s + std::to_string(k)}; }
    C operator()(C c) const { return {c.n - k}; }
    V operator()(V v) const
    {
        return std::visit([this](auto x) -> V { return (*this)(x); }, v);
    }
    A operator()(D d) const { return {d.n + 3 * k}; }
    A operator()(P p) const { return {p.n + k}; }
    C operator()(Q q) const { return {q.n * 2 + k}; }
    V operator()(W v) const
    {
        return std::visit([this](auto x) -> V { return (*this)(x); }, v);
    }
    V operator()(S v) const
    {
        return std::visit([this](auto x) -> V { return (*this)(x); }, v);
    }
};

template <typename T>
T gen_action(pbt::Case& c)
{
    if constexpr (std::is_same_v<T, B>)
        return {c.word()};
    else if constexpr (std::is_same_v<T, V>)
        return c.chance(1, 3) ? V{gen_action<A>(c)} : c.flip() ? V{gen_action<B>(c)} : V{gen_action<C>(c)};
    else if constexpr (std::is_same_v<T, W>)
        return c.flip() ? W{gen_action<P>(c)} : W{gen_action<Q>(c)};
    else if constexpr (std::is_same_v<T, S>)
        return c.flip() ? S{gen_action<A>(c)} : S{gen_action<B>(c)};
    else
        return {static_cast<int>(c.below(2000)) - 1000};
}

// Actions and dependencies of each context
template <typename... Ts>
struct acts
{};
using D0 = lager::deps<int&, str>;
using D1 = lager::deps<int&>;
using D2 = lager::deps<lager::dep::opt<str>>;
using D3 = lager::deps<>;
template <typename Acts_, typename Spec, typename Deps_, bool Int, int Str>
struct kind
{
    using actions              = Acts_; // as the model sees it
    using context              = lager::context<Spec, Deps_>;
    static constexpr bool num  = Int;
    static constexpr int  text = Str; // 0: no, 1: optional, 2: required
};
using kinds = std::tuple<
    /*0*/ kind<acts<V>, V, D0, true, 2>,
    /*1*/ kind<acts<A, B, C>, lager::actions<A, B, C>, D0, true, 2>,
    /*2*/ kind<acts<B, A>, lager::actions<B, A>, D1, true, 0>,
    /*3*/ kind<acts<A>, A, D1, true, 0>,
    /*4*/ kind<acts<D>, D, D3, false, 0>,
    /*5*/ kind<acts<V, A>, lager::actions<V, A>, D0, true, 2>,
    /*6*/ kind<acts<W>, W, D1, true, 0>,
    /*7*/ kind<acts<P>, P, D3, false, 0>,
    /*8*/ kind<acts<S>, S, D2, false, 1>,
    /*9*/ kind<acts<Q, P>, lager::actions<Q, P>, D1, true, 0>,
    /*10*/ kind<acts<>, void, D0, true, 2>,
    /*11*/ kind<acts<C>, lager::actions<C>, D2, false, 1>,
    /*12*/ kind<acts<B>, B, D3, false, 0>,
    /*13*/ kind<acts<>, lager::actions<>, D2, false, 1>>;
constexpr int n_kinds = std::tuple_size_v<kinds>;
template <int I>
using kind_at = std::tuple_element_t<I, kinds>;

// which action of the source gets an X: that type itself, else the first one
// that it converts to
template <typename X, typename... Ss>
struct first_convertible
{
    using type = none;
};
template <typename X, typename T, typename... Ss>
struct first_convertible<X, T, Ss...>
{
    using type = std::conditional_t<std::is_convertible_v<X, T>,
                                    T,
                                    typename first_convertible<X, Ss...>::type>;
};
template <typename X, typename Acts>
struct source_of;
template <typename X, typename... Ss>
struct source_of<X, acts<Ss...>>
{
    using type = std::conditional_t<(std::is_same_v<X, Ss> || ...),
                                    X,
                                    typename first_convertible<X, Ss...>::type>;
};
template <typename X, typename Acts>
using source_t = typename source_of<X, Acts>::type;
template <typename T, bool Convert>
using carried = std::conditional_t<Convert, std::invoke_result_t<conv, T>, T>;

template <typename To, typename From, bool Convert>
struct possible;
template <typename... Ts, typename... Ss, bool Convert>
struct possible<acts<Ts...>, acts<Ss...>, Convert>
{
    static constexpr bool value =
        (!std::is_same_v<source_t<carried<Ts, Convert>, acts<Ss...>>, none> && ...);
};
template <int From, int To, bool Convert>
constexpr bool allowed()
{
    using f = kind_at<From>;
    using t = kind_at<To>;
    return possible<typename t::actions, typename f::actions, Convert>::value &&
           (!t::num || f::num) && (t::text != 2 || f::text == 2);
}

// what a dispatch through a context should deliver
template <typename Acts>
struct deliver;
template <typename... Ts>
struct deliver<acts<Ts...>>
{
    using tup = std::tuple<std::function<V(Ts)>...>;
};

struct world
{
    int number = 0; // what the int& refers to
    str text;
    std::vector<str> expected; // in the order of posting
    std::vector<str> got;
    std::vector<int> done; // times each future completed
    int async = 0, finish = 0, pause = 0, resume = 0;
    int posts = 0;
};

struct base;
using base_ptr = std::unique_ptr<base>;
struct base
{
    int type;
    bool text; // the text is among the dependencies
    base(int t, bool x)
        : type{t}
        , text{x}
    {}
    virtual ~base()                                               = default;
    virtual void look(pbt::Case&, world&)                         = 0;
    virtual base_ptr convert(int to, bool convert, int k, int how) = 0;
    virtual bool dispatch(pbt::Case&, world&)                     = 0;
    virtual void loop(pbt::Case&, world&)                         = 0;
};

template <int I>
struct holder : base
{
    static constexpr int index = I;
    using K       = kind_at<I>;
    using context = typename K::context;
    context ctx;
    typename deliver<typename K::actions>::tup model;

    holder(context x, bool t)
        : base{I, t}
        , ctx{std::move(x)}
    {}
    ~holder() override;
    void look(pbt::Case&, world&) override;
    base_ptr convert(int to, bool convert, int k, int how) override;
    bool dispatch(pbt::Case&, world&) override;
    void loop(pbt::Case&, world&) override;
};
#define D_(i) extern template struct holder<i>;
D_(0) D_(1) D_(2) D_(3) D_(4) D_(5) D_(6) D_(7) D_(8) D_(9) D_(10) D_(11) D_(12) D_(13)
#undef D_

template <int I>
holder<I>::~holder()
{}

template <int I>
void holder<I>::look(pbt::Case& c, world& w)
{
    if constexpr (K::num)
        P_CHECK(&ctx.template get<int>() == &w.number, "reference among the dependencies");
    if constexpr (K::text) {
        P_EQ(ctx.template has<str>(), this->text, "presence of a dependency");
        if (this->text)
            P_EQ(ctx.template get<str>(), w.text, "value among the dependencies");
    }
}

template <int To, bool Convert, typename H, typename... Ts>
void compose(holder<To>& r, const H& from, int k, acts<Ts...>*)
{
    using source = typename H::K::actions;
    auto one = [&](auto* t) {
        using X = std::remove_pointer_t<decltype(t)>;
        using Y = source_t<carried<X, Convert>, source>;
        std::get<std::function<V(X)>>(r.model) = [f = std::get<std::function<V(Y)>>(from.model),
                                                  k](X x) -> V {
            if constexpr (Convert)
                return f(Y(conv{k}(x)));
            else
                return f(Y(x));
        };
    };
    (one(static_cast<Ts*>(nullptr)), ...);
    (void) one;
}

template <int I, typename Fn>
void each_kind(Fn fn)
{
    if constexpr (I < n_kinds) {
        fn(std::integral_constant<int, I>{});
        each_kind<I + 1>(fn);
    }
}

template <int To, typename H>
base_ptr converted(const H& h, bool convert, int k, int how)
{
    using K = kind_at<To>;
    using R = typename K::context;
    std::unique_ptr<holder<To>> r;
    auto text = K::text ? h.text : false;
    if (!convert) {
        if constexpr (allowed<H::index, To, false>()) {
            if (how == 0)
                r = std::make_unique<holder<To>>(R{h.ctx}, text);
            else if (how == 1) {
                auto pass = [](R x) { return x; }; // as the argument of a function
                r         = std::make_unique<holder<To>>(pass(h.ctx), text);
            } else {
                auto made = std::make_unique<holder<To>>(R{h.ctx}, text);
                auto x    = made->ctx;
                x         = h.ctx; // assigned
                made->ctx = std::move(x);
                r         = std::move(made);
            }
            compose<To, false>(*r, h, k, static_cast<typename K::actions*>(nullptr));
        }
    } else {
        if constexpr (allowed<H::index, To, true>()) {
            r = std::make_unique<holder<To>>(R{h.ctx, conv{k}}, text);
            compose<To, true>(*r, h, k, static_cast<typename K::actions*>(nullptr));
        }
    }
    return r;
}

template <int I>
base_ptr holder<I>::convert(int to, bool convert, int k, int how)
{
    base_ptr r;
    each_kind<0>([&](auto j) {
        if (j == to)
            r = converted<decltype(j)::value>(*this, convert, k, how);
    });
    return r;
}

template <typename Fn, typename... Ts>
void dispatch_each(Fn fn, acts<Ts...>*)
{
    auto go = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (fn(std::integral_constant<int, static_cast<int>(Is)>{}, static_cast<Ts*>(nullptr)), ...);
    };
    go(std::index_sequence_for<Ts...>{});
}

template <int I>
bool holder<I>::dispatch(pbt::Case& c, world& w)
{
    constexpr auto n = std::tuple_size_v<decltype(model)>;
    if constexpr (n > 0) {
        auto which = static_cast<int>(c.below(n));
        auto one   = [&](auto i, auto* t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if (which != i)
                return;
            auto x = gen_action<X>(c);
            w.expected.push_back(show_a(std::get<decltype(i)::value>(model)(x)));
            c.log("expecting", w.expected.back());
            auto id = w.done.size();
            w.done.push_back(0);
            auto f = c.flip() ? ctx.dispatch(x) : ctx.dispatch(std::move(x));
            P_CHECK(bool(f), "the future belongs to the store");
            std::move(f).then([&w, id] { ++w.done[id]; });
        };
        dispatch_each(one, static_cast<typename K::actions*>(nullptr));
        return true;
    } else
        return false;
}

template <int I>
void holder<I>::loop(pbt::Case& c, world& w)
{
    auto& l = ctx.loop();
    auto b  = std::array<int, 4>{w.async, w.finish, w.pause, w.resume};
    switch (c.below(5)) {
    case 0: {
        auto id = "post" + std::to_string(w.posts++);
        w.expected.push_back(id);
        l.post([&w, id] { w.got.push_back(id); });
        break;
    }
    case 1:
        l.async([] {});
        ++b[0];
        break;
    case 2:
        l.finish();
        ++b[1];
        break;
    case 3:
        l.pause();
        ++b[2];
        break;
    case 4:
        l.resume();
        ++b[3];
        break;
    }
    auto now = std::array<int, 4>{w.async, w.finish, w.pause, w.resume};
    P_CHECK(b == now, "operations of the loop are forwarded");
}
} // namespace cx
