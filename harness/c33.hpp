// What is moved away shows, and what is used after that complains.
#pragma once

#include <cassert>

#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

#include "pbt.hpp"

namespace keep {

struct val
{
    int a = 0, b = 0;
    val(int a_ = 0, int b_ = 0)
        : a{a_}
        , b{b_}
    {}
    val(const val&) = default;
    val& operator=(const val&) = default;
    val(val&& o)
        : a{std::exchange(o.a, -999)}
        , b{std::exchange(o.b, -999)}
    {}
    val& operator=(val&& o)
    {
        auto x = std::exchange(o.a, -999), y = std::exchange(o.b, -999);
        a = x;
        b = y;
        return *this;
    }
    bool operator==(const val& o) const { return a == o.a && b == o.b; }
    bool operator!=(const val& o) const { return !(*this == o); }
    bool operator<(const val& o) const
    {
        return a != o.a ? a < o.a : b < o.b;
    }
};

inline std::string show(const val& v)
{
    return "(" + std::to_string(v.a) + ", " + std::to_string(v.b) + ")";
}

struct used_after_move : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// a function of the user's
template <typename F>
struct kept
{
    F f;
    const char* name;
    bool gone = false;

    kept(const char* n, F f_)
        : f{std::move(f_)}
        , name{n}
    {}
    kept(const kept&) = default;
    kept& operator=(const kept&) = default;
    kept(kept&& o)
        : f{o.f}
        , name{o.name}
        , gone{std::exchange(o.gone, true)}
    {}
    kept& operator=(kept&& o)
    {
        f    = o.f;
        name = o.name;
        gone = std::exchange(o.gone, true);
        return *this;
    }

    template <typename... Xs>
    auto operator()(Xs&&... xs) const
        -> decltype(std::declval<const F&>()(std::forward<Xs>(xs)...))
    {
        if (gone)
            throw used_after_move{std::string{name} +
                                  " was called after it was moved away"};
        return f(std::forward<Xs>(xs)...);
    }
};
template <typename F>
kept(const char*, F) -> kept<F>;

// gives `x` to `fn` as a lvalue, const or not
template <typename T, typename Fn>
auto lend(bool as_const, T& x, Fn&& fn)
{
    return as_const ? fn(std::as_const(x)) : fn(x);
}

} // namespace keep
