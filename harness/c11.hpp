// Lenses into parts that may be absent, next to a plain reference.
#pragma once
#include "lens_check.hpp"

#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/variant.hpp>


namespace lt {

template <typename T>
using opt = std::optional<T>;

// ---- references -------------------------------------------------------------

template <typename W, typename Enable = void>
struct access_
{ // sequences
    using P = std::decay_t<decltype(*std::declval<W>().begin())>;
    template <typename K>
    static bool has(const W& w, const K& k)
    {
        return static_cast<std::size_t>(k) < w.size();
    }
    template <typename K>
    static P get(const W& w, const K& k)
    {
        auto it = w.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(k));
        return *it;
    }
    template <typename K>
    static W put(const W& w, const K& k, const P& p)
    {
        auto xs = std::vector<P>(w.begin(), w.end());
        xs[static_cast<std::size_t>(k)] = p;
        return W(xs.begin(), xs.end());
    }
};
template <typename W>
struct access_<W, std::void_t<typename W::mapped_type>>
{ // maps
    using P = typename W::mapped_type;
    template <typename K>
    static bool has(const W& w, const K& k)
    {
        return w.count(k) > 0;
    }
    template <typename K>
    static P get(const W& w, const K& k)
    {
        for (auto& kv : w)
            if (kv.first == k)
                return kv.second;
        throw std::logic_error("no such key");
    }
    template <typename K>
    static W put(const W& w, const K& k, const P& p)
    {
        auto r = W{};
        for (auto& kv : w)
            if constexpr (std::is_same_v<W, immer::map<int, P>>)
                r = r.set(kv.first, kv.first == k ? p : kv.second);
            else
                r[kv.first] = kv.first == k ? p : kv.second;
        return r;
    }
};
template <typename P_>
struct access_<std::array<P_, 2>, void>
{
    using P = P_;
    using W = std::array<P, 2>;
    template <typename K>
    static bool has(const W&, const K& k)
    {
        return static_cast<std::size_t>(k) < 2;
    }
    template <typename K>
    static P get(const W& w, const K& k)
    {
        return k == 0 ? w[0] : w[1];
    }
    template <typename K>
    static W put(const W& w, const K& k, const P& p)
    {
        return k == 0 ? W{p, w[1]} : W{w[0], p};
    }
};

template <typename W, typename K>
auto ref_at(K k)
{
    using A = access_<W>;
    using P = typename A::P;
    return ref<W, opt<P>>{"at",
                          [=](const W& w) {
                              return A::has(w, k) ? opt<P>{A::get(w, k)}
                                                  : opt<P>{};
                          },
                          [=](const W& w, const opt<P>& p) {
                              return A::has(w, k) && p ? A::put(w, k, *p) : w;
                          }};
}
template <typename W, typename K, typename P = typename access_<W>::P>
auto ref_at_or(K k, P def)
{
    using A = access_<W>;
    return ref<W, P>{"at_or",
                     [=](const W& w) {
                         return A::has(w, k) ? A::get(w, k) : def;
                     },
                     [=](const W& w, const P& p) {
                         return A::has(w, k) ? A::put(w, k, p) : w;
                     }};
}
template <typename T, typename W>
auto ref_alternative()
{
    return ref<W, opt<T>>{"alternative",
                          [](const W& w) {
                              return std::holds_alternative<T>(w)
                                         ? opt<T>{std::get<T>(w)}
                                         : opt<T>{};
                          },
                          [](const W& w, const opt<T>& p) {
                              return p && std::holds_alternative<T>(w) ? W{*p}
                                                                       : w;
                          }};
}
template <typename W, typename P>
auto ref_map_opt(ref<W, P> r)
{
    return ref<opt<W>, opt<P>>{"map_opt(" + r.name + ")",
                               [=](const opt<W>& w) {
                                   return w ? opt<P>{r.get(*w)} : opt<P>{};
                               },
                               [=](const opt<W>& w, const opt<P>& p) {
                                   return w && p ? opt<W>{r.put(*w, *p)} : w;
                               }};
}
template <typename W, typename P>
auto ref_bind_opt(ref<W, opt<P>> r)
{
    return ref<opt<W>, opt<P>>{
        "bind_opt(" + r.name + ")",
        [=](const opt<W>& w) { return w ? r.get(*w) : opt<P>{}; },
        [=](const opt<W>& w, const opt<P>& p) {
            return w && p ? opt<W>{r.put(*w, p)} : w;
        }};
}
template <typename T>
auto ref_force_opt()
{
    return ref<T, opt<T>>{
        "force_opt",
        [](const T& w) { return opt<T>{w}; },
        [](const T& w, const opt<T>& p) { return p ? *p : w; }};
}

// an endless supply of keys, mostly near the bounds
inline int gen_key(Case& c)
{
    return c.chance(1, 12) ? c.integer() : c.small(5);
}
inline std::size_t gen_index(Case& c)
{
    auto k = c.chance(1, 12) ? static_cast<std::size_t>(c.integer())
                             : static_cast<std::size_t>(c.small(5));
    // near a bound when cut short
    return c.chance(1, 16) ? k + (std::size_t{1} << 32) : k;
}

// the whole, present-focus laws
template <typename Lens, typename W, typename P>
void check_partial(Case& c, const Lens& l, const ref<W, opt<P>>& r)
{
    check_lens(c, l, r, false);
    auto w = W{};
    auto p = P{};
    gen(c, w);
    gen(c, p);
    auto v = opt<P>{lager::view(l, w)};
    c.label(v ? "present" : "absent");
    W s = lager::set(l, w, opt<P>{p});
    if (v)
        same(c, opt<P>{lager::view(l, s)} == opt<P>{p}, r.name, "view after set");
    W same_w = lager::set(l, w, v);
    same(c, same_w == w, r.name, "setting what was viewed changes the whole");
    W none = lager::set(l, w, opt<P>{});
    same(c, none == w, r.name, "setting nothing changes the whole");
    W none2 = lager::set(l, W{w}, opt<P>{});
    same(c, none2 == w, r.name, "setting nothing changes an rvalue whole");
    if (!v)
        same(c, s == w, r.name, "setting an absent part changes the whole");
}

} // namespace lt
