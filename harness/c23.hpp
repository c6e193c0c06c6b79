// C23: derived operations against a second, hand-made list of the members.
#pragma once

#include <cassert>

#include <lager/extra/derive.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hana.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/derive/size_check.hpp>
#include <lager/extra/struct.hpp>

#include <boost/hana/accessors.hpp>
#include <boost/hana/at_key.hpp>
#include <boost/hana/concept/struct.hpp>
#include <boost/hana/for_each.hpp>
#include <boost/hana/integral_constant.hpp>
#include <boost/hana/keys.hpp>
#include <boost/hana/members.hpp>
#include <boost/hana/size.hpp>

#include <cmath>
#include <functional>
#include <limits>
#include <optional>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

#include "pbt.hpp"

using pbt::Case;

namespace {

// The hand-made list: each(x, f) calls f(name, member) in declaration order.
template <typename T>
struct members_of;

#define MEMBERS_VISIT(m) f(#m, x.m);

// -- generating ---------------------------------------------------------------

template <typename T>
struct gen_t
{
    // a derived struct
    static T make(Case& c)
    {
        auto x = T{};
        members_of<T>::each(x, [&](const char*, auto& m) {
            using m_t = std::decay_t<decltype(m)>;
            m         = gen_t<m_t>::make(c);
        });
        return x;
    }
    // makes it different (by its own equality)
    static bool alter(Case& c, T& x)
    {
        auto n = 0u;
        members_of<T>::each(x, [&](const char*, auto&) { ++n; });
        if (n == 0)
            return false;
        auto k    = c.below(n);
        auto i    = 0u;
        auto done = false;
        members_of<T>::each(x, [&](const char*, auto& m) {
            using m_t = std::decay_t<decltype(m)>;
            if (i++ == k)
                done = gen_t<m_t>::alter(c, m);
        });
        return done;
    }
    static bool same(const T& a, const T& b)
    {
        auto r  = true;
        auto xs = std::vector<std::function<bool()>>{};
        // pairs up the members of one with those of the other
        members_of<T>::both(a, b, [&](const char*, auto& m, auto& n) {
            using m_t = std::decay_t<decltype(m)>;
            r         = gen_t<m_t>::same(m, n) && r;
        });
        return r;
    }
};

template <typename T>
struct gen_number
{
    static T make(Case& c) { return static_cast<T>(c.integer()); }
    static bool alter(Case& c, T& x)
    {
        auto y = x;
        do
            y = static_cast<T>(static_cast<unsigned long long>(y) ^
                               (1ull << c.below(8 * sizeof(T))));
        while (y == x);
        x = y;
        return true;
    }
    static bool same(T a, T b) { return a == b; }
};
template <>
struct gen_t<int> : gen_number<int>
{};
template <>
struct gen_t<unsigned char> : gen_number<unsigned char>
{};
template <>
struct gen_t<short> : gen_number<short>
{};
template <>
struct gen_t<unsigned long> : gen_number<unsigned long>
{};
template <>
struct gen_t<bool>
{
    static bool make(Case& c) { return c.flip(); }
    static bool alter(Case&, bool& x) { return x = !x, true; }
    static bool same(bool a, bool b) { return a == b; }
};
template <>
struct gen_t<double>
{
    static double make(Case& c)
    {
        switch (c.below(6)) {
        case 0:
            return 0.0;
        case 1:
            return -0.0;
        case 2:
            return c.integer();
        case 3:
            return c.integer() / 7.0;
        case 4:
            return std::numeric_limits<double>::infinity();
        default:
            return c.chance(1, 4) ? std::nan("") : 1e300;
        }
    }
    static bool alter(Case& c, double& x)
    {
        auto y = x;
        x      = std::isfinite(x) ? x + 1 + c.small() : 3.0;
        return x != y;
    }
    static bool same(double a, double b) { return a == b; }
};
template <>
struct gen_t<std::string>
{
    static std::string make(Case& c)
    {
        auto s = c.text(2);
        if (c.chance(1, 4))
            s += std::string(40, 'x');
        return s;
    }
    static bool alter(Case& c, std::string& s)
    {
        if (!s.empty() && c.flip())
            s.pop_back();
        else
            s.push_back(static_cast<char>('p' + c.below(4)));
        return true;
    }
    static bool same(const std::string& a, const std::string& b)
    {
        return a == b;
    }
};
template <typename T>
struct gen_t<std::optional<T>>
{
    using o_t = std::optional<T>;
    static o_t make(Case& c)
    {
        return c.flip() ? o_t{gen_t<T>::make(c)} : o_t{};
    }
    static bool alter(Case& c, o_t& x)
    {
        if (!x)
            x = gen_t<T>::make(c);
        else if (c.flip())
            x = std::nullopt;
        else
            return gen_t<T>::alter(c, *x);
        return true;
    }
    static bool same(const o_t& a, const o_t& b)
    {
        return a && b ? gen_t<T>::same(*a, *b) : !a && !b;
    }
};
template <typename T>
struct gen_t<std::vector<T>>
{
    using v_t = std::vector<T>;
    static v_t make(Case& c)
    {
        auto v = v_t{};
        while (v.size() < 4 && c.more(1))
            v.push_back(gen_t<T>::make(c));
        return v;
    }
    static bool alter(Case& c, v_t& v)
    {
        if (!v.empty() && c.flip())
            v.pop_back();
        else
            v.push_back(gen_t<T>::make(c));
        return true;
    }
    static bool same(const v_t& a, const v_t& b)
    {
        if (a.size() != b.size())
            return false;
        for (auto i = 0u; i < a.size(); ++i)
            if (!gen_t<T>::same(a[i], b[i]))
                return false;
        return true;
    }
};
enum class hue
{
    red,
    green,
    blue
};
template <>
struct gen_t<hue>
{
    static hue make(Case& c) { return static_cast<hue>(c.below(3)); }
    static bool alter(Case& c, hue& x)
    {
        x = static_cast<hue>((static_cast<int>(x) + 1 + c.below(2)) % 3);
        return true;
    }
    static bool same(hue a, hue b) { return a == b; }
};

template <typename T>
concept hashable = requires(const T& x) {
    { std::hash<T>{}(x) } -> std::convertible_to<std::size_t>;
};

template <typename T>
bool has_nan(const T&)
{
    return false;
}
inline bool has_nan(const double& x) { return x != x; }

// -- the checks ---------------------------------------------------------------

template <typename T>
void check_pair(Case& c, const T& a, const T& b, bool want)
{
    P_EQ(a == b, want);
    P_EQ(b == a, want);
    P_EQ(a != b, !want);
    P_EQ(b != a, !want);
    if constexpr (hashable<T>)
        if (want)
            P_CHECK(std::hash<T>{}(a) == std::hash<T>{}(b));
}

template <typename T>
void equality(Case& c)
{
    using g = gen_t<T>;
    auto a  = g::make(c);
    auto b  = g::make(c);
    check_pair(c, a, a, g::same(a, a));
    check_pair(c, a, b, g::same(a, b));
    check_pair<T>(c, T{}, T{}, true);
    {
        // each member on its own makes a difference
        auto n = 0u;
        members_of<T>::each(a, [&](const char*, auto&) { ++n; });
        c.log(n, " members");
        for (auto k = 0u; k < n; ++k) {
            auto x = a;
            auto i = 0u;
            members_of<T>::each(x, [&](const char* name, auto& m) {
                using m_t = std::decay_t<decltype(m)>;
                if (i++ == k) {
                    c.log("altered ", name);
                    c.nontrivial(gen_t<m_t>::alter(c, m));
                }
            });
            check_pair(c, a, x, g::same(a, x));
            // and back
            i = 0;
            members_of<T>::both(x, a, [&](const char*, auto& m, auto& o) {
                if (i++ == k)
                    const_cast<std::decay_t<decltype(m)>&>(m) = o;
            });
            check_pair(c, a, x, g::same(a, x));
        }
    }
    {
        // two of them at once do not make up for each other
        auto x = a;
        auto i = 0;
        for (; i < 3; ++i)
            g::alter(c, x);
        check_pair(c, a, x, g::same(a, x));
    }
    if constexpr (hashable<T>) {
        // a hash that leaves out a member gives the same for whatever the
        // member is
        auto n = 0u;
        members_of<T>::each(a, [&](const char*, auto&) { ++n; });
        for (auto k = 0u; k < n; ++k) {
            auto hs      = std::unordered_set<std::size_t>{};
            auto x       = a;
            auto altered = 0;
            hs.insert(std::hash<T>{}(x));
            for (auto j = 0; j < 6; ++j) {
                auto i = 0u;
                members_of<T>::each(x, [&](const char*, auto& m) {
                    using m_t = std::decay_t<decltype(m)>;
                    if (i++ == k)
                        altered += gen_t<m_t>::alter(c, m);
                });
                hs.insert(std::hash<T>{}(x));
            }
            P_CHECK(!altered || hs.size() > 1, "member " << k << " of " << n);
        }
        // usable as a key
        auto set = std::unordered_set<T>{};
        set.insert(a);
        P_CHECK(set.count(a) == (g::same(a, a) ? 1u : 0u));
        P_CHECK(set.count(b) == (g::same(a, b) ? 1u : 0u));
    }
}

template <typename T>
void reflection(Case& c)
{
    using g        = gen_t<T>;
    namespace hana = boost::hana;
    static_assert(hana::Struct<T>::value);
    auto a     = g::make(c);
    auto want  = std::vector<std::string>{};
    auto where = std::vector<const void*>{};
    members_of<T>::each(a, [&](const char* n, auto& m) {
        want.push_back(n);
        where.push_back(&m);
    });
    c.log(want.size(), " members");
    c.nontrivial(want.size() > 1);
    P_EQ(std::size_t(hana::size(hana::keys(a))), want.size());
    {
        auto got = std::vector<std::string>{};
        hana::for_each(hana::keys(a),
                       [&](auto k) { got.push_back(k.c_str()); });
        P_EQ(got, want);
    }
    {
        // the pairs of names and values
        auto i = 0u;
        hana::for_each(a, [&](auto&& p) {
            P_EQ(std::string{hana::first(p).c_str()}, want[i]);
            auto j = 0u;
            members_of<T>::each(a, [&](const char*, auto& m) {
                using m_t = std::decay_t<decltype(m)>;
                if (j++ == i) {
                    if constexpr (std::is_same_v<
                                      m_t,
                                      std::decay_t<decltype(hana::second(p))>>)
                        P_CHECK(gen_t<m_t>::same(hana::second(p), m) ||
                                !gen_t<m_t>::same(m, m));
                    else
                        c.fail("a member has another type");
                }
            });
            ++i;
        });
        P_EQ(i, want.size());
    }
    {
        // names lead to the members themselves
        auto i = 0u;
        hana::for_each(hana::keys(a), [&](auto k) {
            P_CHECK(static_cast<const void*>(&hana::at_key(a, k)) == where[i],
                    want[i]);
            P_CHECK(static_cast<const void*>(
                        &hana::at_key(std::as_const(a), k)) == where[i]);
            ++i;
        });
    }
    {
        // assigning through the reflection changes that member only
        auto i = 0u;
        hana::for_each(hana::keys(a), [&](auto k) {
            auto x    = a;
            auto& m   = hana::at_key(x, k);
            using m_t = std::decay_t<decltype(m)>;
            auto v    = gen_t<m_t>::make(c);
            m         = v;
            auto j    = 0u;
            members_of<T>::both(x, a, [&](const char* n, auto& y, auto& z) {
                using y_t = std::decay_t<decltype(y)>;
                if (j == i) {
                    P_EQ(std::string{n}, std::string{k.c_str()});
                    if constexpr (std::is_same_v<y_t, m_t>)
                        P_CHECK(gen_t<y_t>::same(y, v) ||
                                !gen_t<y_t>::same(v, v));
                    else
                        c.fail("a member has another type");
                } else {
                    P_CHECK(gen_t<y_t>::same(y, z) || !gen_t<y_t>::same(z, z),
                            "another member changed: " << n);
                }
                ++j;
            });
            // taken out of an rvalue
            auto y = a;
            auto w = hana::at_key(std::move(y), k);
            P_CHECK(gen_t<m_t>::same(w, hana::at_key(a, k)) ||
                    !gen_t<m_t>::same(w, w));
            ++i;
        });
        P_EQ(i, want.size());
    }
}

} // namespace

#define MEMBERS_BOTH(m) f(#m, x.m, y.m);
#define MEMBERS(type, list)                                                    \
    template <>                                                                \
    struct members_of<type>                                                    \
    {                                                                          \
        template <typename X, typename F>                                      \
        static void each([[maybe_unused]] X& x, [[maybe_unused]] F&& f)        \
        {                                                                      \
            list(MEMBERS_VISIT)                                                \
        }                                                                      \
        template <typename X, typename F>                                      \
        static void both([[maybe_unused]] X& x,                                \
                         [[maybe_unused]] X& y,                                \
                         [[maybe_unused]] F&& f)                               \
        {                                                                      \
            list(MEMBERS_BOTH)                                                 \
        }                                                                      \
    }
