// C14: sets of dependencies against a table of cells.
#pragma once

#include <cassert>
#include <pbt.hpp>

#include <lager/context.hpp>
#include <lager/deps.hpp>

#include <array>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <tuple>

namespace dp {

struct thing
{
    std::string text;
    friend bool operator==(const thing& a, const thing& b) { return a.text == b.text; }
};
inline std::string show_v(const thing& t) { return t.text; }
inline std::string show_v(const std::string& t) { return t; }
inline std::string show_v(int t) { return std::to_string(t); }

struct KA
{};
struct KB
{};
struct KC
{};

// How the library is asked to treat a key, described independently
template <typename K, typename V, bool Ref, bool Fn, bool Opt>
struct facts
{
    using key                 = K;
    using value               = V;
    static constexpr bool ref = Ref, fn = Fn, opt = Opt;
};
template <typename S>
struct desc : facts<S, S, false, false, false>
{};
template <typename S>
struct desc<S&> : facts<S, S, true, false, false>
{};
template <typename S>
struct desc<std::reference_wrapper<S>> : desc<S&>
{};
template <typename S>
struct desc<lager::dep::val<S>> : desc<S>
{};
template <typename S>
struct desc<lager::dep::ref<S>> : desc<S&>
{};
template <typename S>
struct desc<lager::dep::opt<S>>
    : facts<typename desc<S>::key, typename desc<S>::value, desc<S>::ref, desc<S>::fn, true>
{};
template <typename S>
struct desc<lager::dep::fn<S>>
    : facts<typename desc<S>::key, typename desc<S>::value, desc<S>::ref, true, desc<S>::opt>
{};
template <typename K, typename S>
struct desc<lager::dep::key<K, S>>
    : facts<K, typename desc<S>::value, desc<S>::ref, desc<S>::fn, desc<S>::opt>
{};

template <typename K>
int key_id()
{
    if constexpr (std::is_same_v<K, int>)
        return 0;
    else if constexpr (std::is_same_v<K, std::string>)
        return 1;
    else if constexpr (std::is_same_v<K, thing>)
        return 2;
    else if constexpr (std::is_same_v<K, KA>)
        return 3;
    else if constexpr (std::is_same_v<K, KB>)
        return 4;
    else
        return 5;
}

using namespace lager::dep;
using str   = std::string;
using types = std::tuple<
    /*0*/ lager::deps<int, str, thing&, key<KA, int>, key<KB, str&>, key<KC, fn<thing>>>,
    /*1*/ lager::deps<key<KC, fn<thing>>, str, key<KA, int>>,
    /*2*/ lager::deps<key<KC, thing>, int>,
    /*3*/ lager::deps<opt<int>, opt<thing&>, opt<key<KB, str&>>>,
    /*4*/ lager::deps<opt<thing&>, key<KA, int>>,
    /*5*/
    lager::deps<fn<int>, fn<thing&>, key<KA, fn<int>>, key<KB, fn<str&>>, opt<str>>,
    /*6*/ lager::deps<opt<fn<int>>, thing&, opt<key<KB, fn<str&>>>>,
    /*7*/ lager::deps<key<KA, opt<int>>, opt<str>, opt<key<KC, thing>>>,
    /*8*/ lager::deps<>,
    /*9*/ lager::deps<str, int>,
    /*10*/ lager::deps<std::reference_wrapper<thing>, val<str>>,
    /*11*/ lager::deps<key<KC, opt<fn<thing>>>, opt<int>, ref<thing>>,
    /*12*/ lager::deps<key<KB, str&>, key<KA, int>>>;
constexpr int n_types = std::tuple_size_v<types>;
template <int I>
using type_at = std::tuple_element_t<I, types>;

// may Target be built from Source?
template <typename T, typename... Ss>
struct find_key
{
    using type = void;
};
template <typename T, typename S, typename... Ss>
struct find_key<T, S, Ss...>
{
    using type = std::conditional_t<std::is_same_v<typename desc<T>::key, typename desc<S>::key>,
                                    S,
                                    typename find_key<T, Ss...>::type>;
};
template <typename T, typename S>
constexpr bool spec_from()
{
    using dt = desc<T>;
    if constexpr (std::is_void_v<S>)
        return dt::opt;
    else {
        using ds = desc<S>;
        return dt::ref == ds::ref && std::is_same_v<typename dt::value, typename ds::value> &&
               (dt::opt ? dt::fn == ds::fn
                        : !ds::opt && (dt::fn == ds::fn || (!dt::fn && ds::fn)));
    }
}
template <typename Ds, typename Ss>
struct from;
template <typename... Ts, typename... Ss>
struct from<lager::deps<Ts...>, lager::deps<Ss...>>
{
    static constexpr bool value = (spec_from<Ts, typename find_key<Ts, Ss...>::type>() && ...);
};
// from two sets, the second one winning
template <typename T, typename A, typename B>
constexpr bool spec_from2()
{
    if constexpr (std::is_void_v<B>)
        return spec_from<T, A>();
    else
        return spec_from<T, B>();
}
template <typename Ds, typename As, typename Bs>
struct from2;
template <typename... Ts, typename... As, typename... Bs>
struct from2<lager::deps<Ts...>, lager::deps<As...>, lager::deps<Bs...>>
{
    static constexpr bool value = (spec_from2<Ts,
                                              typename find_key<Ts, As...>::type,
                                              typename find_key<Ts, Bs...>::type>() &&
                                   ...);
};

// The world that references and functions lead to
constexpr int n_objs = 3;
struct world
{
    std::array<int, n_objs> ints;
    std::array<str, n_objs> strs;
    std::array<thing, n_objs> things;

    template <typename V>
    V& obj(int i)
    {
        if constexpr (std::is_same_v<V, int>)
            return ints[i];
        else if constexpr (std::is_same_v<V, str>)
            return strs[i];
        else
            return things[i];
    }
    // function i: gives object (at[i]), by value or by reference
    std::array<int, 4> at{};
    std::array<int, 4> calls{};
};
template <typename V>
V gen_value(pbt::Case& c)
{
    if constexpr (std::is_same_v<V, int>)
        return c.integer();
    else if constexpr (std::is_same_v<V, str>)
        return c.text() + " and some more to leave the small buffer";
    else
        return thing{c.text() + " and a thing that is long enough as well"};
}

// What the model knows of each key
struct cell
{
    bool present = false;
    bool fn      = false;
    int where    = 0;  // object, or function
    std::string value; // when held by value and not a function
};
using cells = std::map<int, cell>;

inline std::string describe(const cells& cs)
{
    std::string s;
    for (auto& [k, x] : cs)
        s += " " + std::to_string(k) + ":" +
             (!x.present ? std::string{"-"}
              : x.fn     ? "f" + std::to_string(x.where)
              : !x.value.empty() ? "\"" + x.value + "\"" : "@" + std::to_string(x.where));
    return s;
}

// the cell that a spec gets out of a cell that may have another form
template <typename T>
cell derive(world& w, const cell& x)
{
    using dt = desc<T>;
    auto r   = x;
    if (x.present && x.fn && !dt::fn) { // computed when it is extracted
        r.fn    = false;
        r.where = w.at[x.where];
        if (!dt::ref)
            r.value = show_v(w.obj<typename dt::value>(r.where));
    }
    return r;
}
template <typename T>
struct spec_tag
{
    using type = T;
};
template <typename... Ts>
cells derive_all(world& w, const cells& a, lager::deps<Ts...>*)
{
    cells r;
    auto one = [&](auto* t) {
        using S = std::remove_pointer_t<decltype(t)>;
        using T = typename S::type;
        auto k  = key_id<typename desc<T>::key>();
        auto it = a.find(k);
        r[k]    = it == a.end() ? cell{} : derive<T>(w, it->second);
    };
    (one(static_cast<spec_tag<Ts>*>(nullptr)), ...);
    return r;
}

// reads one key in every way, and compares
struct obs
{
    int key;
    bool ref;
    bool (*has)(const void*);
    bool (*lager_has)(const void*);
    std::string (*get)(const void*, const void*&);
    std::string (*lager_get)(const void*, const void*&);
    std::string (*obj)(world&, int, const void*&);
    bool (*write)(pbt::Case&, world&, const void*, int);
};
inline void check_obs(pbt::Case& c, world& w, const cells& cs, const void* d, bool write, const obs& o)
{
    auto& x = cs.at(o.key);
    P_EQ(o.has(d), x.present, "has, key ", o.key);
    P_EQ(o.lager_has(d), x.present, "lager::has, key ", o.key);
    for (auto get : {o.get, o.lager_get}) {
        const void *at = nullptr, *expected_at = nullptr;
        auto what = std::string{get == o.get ? "get" : "lager::get"} + ", key " +
                    std::to_string(o.key);
        if (!x.present) {
            auto threw = false;
            try {
                get(d, at);
            } catch (const lager::missing_dependency_error&) {
                threw = true;
            }
            P_CHECK(threw, "getting an absent dependency, ", what);
            continue;
        }
        auto calls = w.calls;
        auto got   = get(d, at);
        auto want  = x.fn    ? o.obj(w, w.at[x.where], expected_at)
                     : o.ref ? o.obj(w, x.where, expected_at)
                             : x.value;
        P_EQ(got, want, what);
        if (o.ref)
            P_CHECK(at == expected_at, "refers to the original, ", what);
        if (x.fn)
            ++calls[x.where];
        P_CHECK(w.calls == calls, "computed once per access, ", what);
    }
    if (x.present && o.ref && write)
        P_CHECK(o.write(c, w, d, x.fn ? w.at[x.where] : x.where), "writing through, key ", o.key);
}
template <typename T, typename D>
void check_key(pbt::Case& c, world& w, const cells& cs, const D& d, bool write)
{
    using dt = desc<T>;
    using K  = typename dt::key;
    using V  = typename dt::value;
    static const obs o{
        key_id<K>(),
        dt::ref,
        [](const void* p) { return static_cast<const D*>(p)->template has<K>(); },
        [](const void* p) { return lager::has<K>(*static_cast<const D*>(p)); },
        [](const void* p, const void*& at) {
            auto&& v = static_cast<const D*>(p)->template get<K>();
            at       = &v;
            return show_v(v);
        },
        [](const void* p, const void*& at) {
            auto&& v = lager::get<K>(*static_cast<const D*>(p));
            at       = &v;
            return show_v(v);
        },
        [](world& w, int i, const void*& at) {
            at = &w.obj<V>(i);
            return show_v(w.obj<V>(i));
        },
        [](pbt::Case& c, world& w, const void* p, int i) {
            if constexpr (dt::ref) {
                V y                                         = gen_value<V>(c);
                static_cast<const D*>(p)->template get<K>() = y;
                return w.obj<V>(i) == y;
            } else
                return true;
        }};
    check_obs(c, w, cs, &d, write, o);
}
template <typename D, typename... Ts>
void check_all(pbt::Case& c, world& w, const cells& cs, const D& d, bool write, lager::deps<Ts...>*)
{
    (check_key<Ts, D>(c, w, cs, d, write), ...);
}

// building one from scratch
template <typename T>
struct argument
{
    using dt = desc<T>;
    using V  = typename dt::value;
    cell x;
    world* w;
    V value{};

    argument(pbt::Case& c, world& w_)
        : w{&w_}
    {
        x.present = !dt::opt || c.chance(2, 3);
        if (!x.present)
            return;
        x.fn = dt::fn;
        if (dt::fn)
            x.where = static_cast<int>(c.below(4));
        else if (dt::ref)
            x.where = static_cast<int>(c.below(n_objs));
        else {
            value   = gen_value<V>(c);
            x.value = show_v(value);
        }
    }
    auto fun()
    {
        return [w = w, i = x.where]() -> std::conditional_t<dt::ref, V&, V> {
            ++w->calls[i];
            return w->obj<V>(w->at[i]);
        };
    }
    using storage = typename lager::dep::to_spec<T>::storage;
    storage make()
    {
        if constexpr (dt::opt) {
            if (!x.present)
                return {};
        }
        if constexpr (dt::fn)
            return storage{fun()};
        else if constexpr (dt::ref)
            return storage{w->obj<V>(x.where)};
        else
            return storage{value};
    }
};

template <typename... Ts>
lager::deps<Ts...> build(pbt::Case& c, world& w, cells& cs, lager::deps<Ts...>*)
{
    auto args = std::tuple<argument<Ts>...>{argument<Ts>{c, w}...};
    return std::apply(
        [&](auto&... as) {
            (void) std::initializer_list<int>{
                (cs[key_id<typename desc<Ts>::key>()] = as.x, 0)...};
            return lager::deps<Ts...>::with(as.make()...);
        },
        args);
}

// two sets merged: the specifications of the second one prevail
template <typename T, typename... Bs>
constexpr bool in_second = !std::is_void_v<typename find_key<T, Bs...>::type>;
template <typename R, typename... As, typename... Bs>
void check_merged(pbt::Case& c,
                  world& w,
                  const cells& cs,
                  const R& r,
                  lager::deps<As...>*,
                  lager::deps<Bs...>*)
{
    auto first = [&](auto* t) {
        using T = typename std::remove_pointer_t<decltype(t)>::type;
        if constexpr (!in_second<T, Bs...>)
            check_key<T>(c, w, cs, r, true);
    };
    (first(static_cast<spec_tag<As>*>(nullptr)), ...);
    (check_key<Bs>(c, w, cs, r, true), ...);
}
// which joins to instantiate (there are too many)
constexpr bool joined(int a, int b, int to)
{
    return (a * 7 + b * 3 + to * 5) % 6 == 0;
}
constexpr bool merged(int a, int b) { return (a + b) % 2 == 0 || a == b; }
constexpr bool via_context(int a, int to) { return (a + to) % 2 == 0; }

struct base;
using base_ptr = std::unique_ptr<base>;
struct base
{
    int type;
    cells cs;
    base(int t)
        : type{t}
    {}
    virtual ~base()                                                        = default;
    virtual void check(pbt::Case&, world&, bool write)                     = 0;
    virtual base_ptr convert(world&, int, int how)                         = 0;
    virtual void assign(const base&)                                       = 0;
    virtual base_ptr copy(bool move)                                       = 0;
    virtual bool merge(pbt::Case&, world&, base&)                          = 0;
    virtual base_ptr join(world&, base&, int target)                       = 0;
    virtual base_ptr through_contexts(pbt::Case&, world&, int to) = 0;
};

template <int I>
struct holder : base
{
    using D = type_at<I>;
    D d;
    holder(D d_)
        : base{I}
        , d{std::move(d_)}
    {}
    ~holder() override;
    void check(pbt::Case&, world&, bool write) override;
    void assign(const base&) override;
    base_ptr copy(bool move) override;
    base_ptr convert(world& w, int to, int how) override;
    bool merge(pbt::Case&, world&, base&) override;
    base_ptr join(world&, base&, int target) override;
    base_ptr through_contexts(pbt::Case&, world&, int to) override;
};

// each in its own translation unit
#define D_(i) extern template struct holder<i>;
D_(0) D_(1) D_(2) D_(3) D_(4) D_(5) D_(6) D_(7) D_(8) D_(9) D_(10) D_(11) D_(12)
#undef D_

template <int I>
holder<I>::~holder()
{}
template <int I>
void holder<I>::check(pbt::Case& c, world& w, bool write)
{
    check_all(c, w, cs, d, write, static_cast<D*>(nullptr));
}
template <int I>
void holder<I>::assign(const base& o)
{
    d  = static_cast<const holder&>(o).d;
    cs = o.cs;
}
template <int I>
base_ptr holder<I>::copy(bool move)
{
    auto e = d;
    auto r = move ? std::make_unique<holder>(std::move(e)) : std::make_unique<holder>(e);
    r->cs  = cs;
    return r;
}

template <int I, typename Fn>
void each_type(Fn fn)
{
    if constexpr (I < n_types) {
        fn(std::integral_constant<int, I>{});
        each_type<I + 1>(fn);
    }
}

template <int I>
base_ptr holder<I>::convert(world& w, int to, int how)
{
    base_ptr r;
    each_type<0>([&](auto j) {
        using E = type_at<decltype(j)::value>;
        static_assert(!from<E, D>::value || std::is_convertible_v<D, E>);
        if constexpr (from<E, D>::value)
            if (j == to) {
                auto m = derive_all(w, cs, static_cast<E*>(nullptr));
                if (how == 0)
                    r = std::make_unique<holder<decltype(j)::value>>(E{d});
                else if (how == 1) {
                    auto e = d;
                    r      = std::make_unique<holder<decltype(j)::value>>(E{std::move(e)});
                } else {
                    E e = d;
                    r   = std::make_unique<holder<decltype(j)::value>>(e);
                }
                r->cs = m;
            }
    });
    return r;
}

struct no_loop
{
    void post(std::function<void()> f) { f(); }
    void async(std::function<void()> f) { f(); }
    void finish() {}
    void pause() {}
    void resume() {}
};
inline no_loop the_loop;

template <int I>
base_ptr holder<I>::through_contexts(pbt::Case& c, world& w, int to)
{
    base_ptr r;
    each_type<0>([&](auto j) {
        using E = type_at<decltype(j)::value>;
        if constexpr (from<E, D>::value && via_context(I, decltype(j)::value))
            if (j == to) {
                auto got  = std::vector<int>{};
                auto fun  = [&](int x) {
                    got.push_back(x);
                    return lager::future{};
                };
                auto ctx  = lager::context<int, D>{fun, the_loop, d};
                check_all<D>(c, w, cs, ctx, false, static_cast<D*>(nullptr));
                auto m    = derive_all(w, cs, static_cast<E*>(nullptr));
                auto less = lager::context<int, E>{ctx};
                check_all<E>(c, w, m, less, true, static_cast<E*>(nullptr));
                less.dispatch(7);
                P_CHECK(got == std::vector<int>{7}, "dispatched through the narrowed context");
                r     = std::make_unique<holder<decltype(j)::value>>(E{less});
                r->cs = m;
            }
    });
    return r;
}

template <int I>
bool holder<I>::merge(pbt::Case& c, world& w, base& o)
{
    auto done = false;
    each_type<0>([&](auto j) {
        using B = type_at<decltype(j)::value>;
        if constexpr (merged(I, decltype(j)::value))
            if (j == o.type) {
                auto& b = static_cast<holder<decltype(j)::value>&>(o);
                auto m  = cs;
                for (auto& [k, x] : b.cs)
                    m[k] = x;
                auto r = d.merge(b.d);
                check_merged(c, w, m, r, static_cast<D*>(nullptr), static_cast<B*>(nullptr));
                done = true;
            }
    });
    return done;
}

template <int I>
base_ptr holder<I>::join(world& w, base& o, int to)
{
    base_ptr r;
    each_type<0>([&](auto j) {
        using B = type_at<decltype(j)::value>;
        if (j != o.type)
            return;
        auto& b = static_cast<holder<decltype(j)::value>&>(o);
        each_type<0>([&](auto k) {
            using E = type_at<decltype(k)::value>;
            if constexpr (joined(I, decltype(j)::value, decltype(k)::value) &&
                          from2<E, D, B>::value)
                if (k == to) {
                    auto m = cs;
                    for (auto& [key, x] : b.cs)
                        m[key] = x;
                    m     = derive_all(w, m, static_cast<E*>(nullptr));
                    r     = std::make_unique<holder<decltype(k)::value>>(E{d, b.d});
                    r->cs = m;
                }
        });
    });
    return r;
}
} // namespace dp
