// C29: what a match over generated variants should call, and what it called.
#pragma once

#include <cassert>

#include <lager/util.hpp>

#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#include "pbt.hpp"

using pbt::Case;

namespace {

// the category a handler received an argument in
enum class cat
{
    lval,
    clval,
    rval,
    crval,
    value
};

template <typename Ref>
constexpr cat category_of()
{
    if constexpr (std::is_lvalue_reference_v<Ref>)
        return std::is_const_v<std::remove_reference_t<Ref>> ? cat::clval
                                                             : cat::lval;
    else
        return std::is_const_v<std::remove_reference_t<Ref>> ? cat::crval
                                                             : cat::rval;
}

inline const char* name(cat k)
{
    static const char* ns[] = {"&", "const&", "&&", "const&&", "by value"};
    return ns[static_cast<int>(k)];
}

struct traffic_t
{
    long copies = 0;
    long moves  = 0;
};
inline traffic_t& traffic()
{
    static traffic_t t;
    return t;
}

// alternatives that know whether they were moved from
template <int N>
struct alt
{
    int id     = 0;
    bool moved = false;
    std::string text;

    alt(int i = 0)
        : id{i}
        , text{"text number " + std::to_string(i)}
    {
    }
    alt(const alt& o)
        : id{o.id}
        , moved{o.moved}
        , text{o.text}
    {
        ++traffic().copies;
    }
    alt(alt&& o) noexcept
        : id{o.id}
        , moved{o.moved}
        , text{std::move(o.text)}
    {
        o.moved = true;
        ++traffic().moves;
    }
    alt& operator=(const alt&) = default;
    alt& operator=(alt&&)      = default;
};

using a0 = alt<0>;
using a1 = alt<1>;
using a2 = alt<2>;
// an alternative that also matches handlers for a0
struct sub : a0
{
    using a0::a0;
};

using plain = std::variant<a0, a1, sub>;
struct derived : plain
{
    using plain::plain;
    int extra = 7;
};
struct derived_twice : derived
{
    using derived::derived;
    std::string more = "more";
};
// the same type in two places
using doubled = std::variant<a1, a0, a1>;

// one call of a handler
struct call
{
    std::string who;
    std::vector<int> alts; // which alternatives (-1: not known)
    std::vector<cat> cats;
    std::vector<const void*> where;
    std::vector<int> ids;
    std::vector<bool> moved;
};

template <typename T>
constexpr int alt_index()
{
    if constexpr (std::is_same_v<T, a0>)
        return 0;
    else if constexpr (std::is_same_v<T, a1>)
        return 1;
    else if constexpr (std::is_same_v<T, a2>)
        return 2;
    else
        return 3;
}

template <typename... Xs>
call observe(std::string who, Xs&&... xs)
{
    auto r = call{std::move(who), {}, {}, {}, {}, {}};
    (r.alts.push_back(alt_index<std::decay_t<Xs>>()), ...);
    (r.cats.push_back(category_of<Xs&&>()), ...);
    (r.where.push_back(static_cast<const void*>(&xs)), ...);
    (r.ids.push_back(xs.id), ...);
    (r.moved.push_back(xs.moved), ...);
    return r;
}

inline std::string show_call(const call& k)
{
    auto s = k.who;
    for (auto i = 0u; i < k.alts.size(); ++i)
        s += " alt" + std::to_string(k.alts[i]) + name(k.cats[i]) + "#" +
             std::to_string(k.ids[i]) + (k.moved[i] ? "(moved)" : "");
    return s;
}

template <typename V>
V make(int which, int id)
{
    // by position, so that a type in two places can be told apart
    if constexpr (std::is_same_v<V, doubled>) {
        if (which == 0)
            return V{std::in_place_index<0>, id};
        if (which == 1)
            return V{std::in_place_index<1>, id};
        return V{std::in_place_index<2>, id};
    } else {
        if (which == 0)
            return V{std::in_place_index<0>, id};
        if (which == 1)
            return V{std::in_place_index<1>, id};
        return V{std::in_place_index<2>, id};
    }
}

template <typename V>
constexpr int alt_at(int which)
{
    if (std::is_same_v<V, doubled>)
        return which == 1 ? 0 : 1;
    return which == 0 ? 0 : which == 1 ? 1 : 3;
}

template <typename V>
const void* address(const V& v)
{
    const auto& b = static_cast<const lager::get_variant_t<const V&>&>(v);
    return std::visit([](auto const& x) { return static_cast<const void*>(&x); },
                      b);
}
template <typename V>
bool is_moved(const V& v)
{
    const auto& b = static_cast<const lager::get_variant_t<const V&>&>(v);
    return std::visit([](auto const& x) { return x.moved; }, b);
}

// passes `v` in the category `K`
template <cat K, typename V>
decltype(auto) as(V& v)
{
    if constexpr (K == cat::lval)
        return static_cast<V&>(v);
    else if constexpr (K == cat::clval)
        return static_cast<const V&>(v);
    else if constexpr (K == cat::rval)
        return static_cast<V&&>(v);
    else
        return static_cast<const V&&>(v);
}

#define CHECK_CALL(ks, expected)                                              \
    do {                                                                       \
        P_CHECK(ks.size() == 1, ks.size() << " handlers were called");          \
        c.log("called: ", show_call(ks[0]));                                   \
        P_EQ(show_call(ks[0]), show_call(expected));                           \
        P_CHECK(ks[0].where == expected.where,                                 \
                "the handler did not get the held value itself");              \
    } while (0)

} // namespace
