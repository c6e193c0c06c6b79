// Nested data with heap-allocated parts, so that parts lost to a move show.
#pragma once

#include <pbt.hpp>

#include <immer/box.hpp>
#include <immer/array.hpp>
#include <immer/flex_vector.hpp>
#include <immer/map.hpp>
#include <immer/vector.hpp>

#include <array>
#include <map>
#include <optional>
#include <ostream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace lt {

using pbt::Case;

struct In
{
    int n = 0;
    std::string s;
    bool operator==(const In& o) const { return n == o.n && s == o.s; }
};

struct Mid
{
    In a;
    std::pair<In, int> p;
    std::tuple<int, In, std::string> t;
    bool operator==(const Mid& o) const
    {
        return a == o.a && p == o.p && t == o.t;
    }
};

struct Out
{
    Mid m;
    immer::box<Mid> bm;
    std::array<In, 2> arr;
    std::string s;
    bool operator==(const Out& o) const
    {
        return m == o.m && bm == o.bm && arr == o.arr && s == o.s;
    }
};

// so that they find each other
template <typename T>
void gen(Case& c, std::vector<T>& x);
template <typename T>
void gen(Case& c, immer::vector<T>& x);
template <typename T>
void gen(Case& c, immer::flex_vector<T>& x);
template <typename T>
void gen(Case& c, immer::array<T>& x);
template <typename T>
void gen(Case& c, std::map<int, T>& x);
template <typename T>
void gen(Case& c, std::unordered_map<std::string, T>& x);
template <typename T>
void gen(Case& c, immer::map<int, T>& x);
template <typename T>
void gen(Case& c, std::optional<T>& x);
template <typename A, typename B, typename C>
void gen(Case& c, std::variant<A, B, C>& x);
template <typename T>
std::ostream& put(std::ostream& os, const std::optional<T>& x);
template <typename A, typename B, typename C>
std::ostream& put(std::ostream& os, const std::variant<A, B, C>& x);
template <typename T>
auto put(std::ostream& os, const T& x)
    -> decltype(x.begin(), x.size(), (os));

// long enough to live on the heap
inline std::string gen_string(Case& c)
{
    auto k = c.below(5);
    if (k == 0)
        return {};
    return "the quick brown fox jumps over " +
           std::string(1, static_cast<char>('a' + k)) + std::to_string(c.small());
}

inline void gen(Case& c, int& x) { x = c.integer(); }
inline void gen(Case& c, std::string& x) { x = gen_string(c); }
inline void gen(Case& c, In& x)
{
    gen(c, x.n);
    gen(c, x.s);
}
template <typename A, typename B>
void gen(Case& c, std::pair<A, B>& x)
{
    gen(c, x.first);
    gen(c, x.second);
}
template <typename... Ts>
void gen(Case& c, std::tuple<Ts...>& x)
{
    std::apply([&](auto&... ys) { (gen(c, ys), ...); }, x);
}
template <typename T, std::size_t N>
void gen(Case& c, std::array<T, N>& x)
{
    for (auto& y : x)
        gen(c, y);
}
inline void gen(Case& c, Mid& x)
{
    gen(c, x.a);
    gen(c, x.p);
    gen(c, x.t);
}
inline void gen(Case& c, Out& x)
{
    gen(c, x.m);
    auto m = Mid{};
    gen(c, m);
    x.bm = m;
    gen(c, x.arr);
    gen(c, x.s);
}

inline std::ostream& put(std::ostream& os, int x) { return os << x; }
inline std::ostream& put(std::ostream& os, const std::string& x)
{
    return os << '"' << (x.size() > 31 ? x.substr(31) : x) << '"';
}
inline std::ostream& put(std::ostream& os, const In& x)
{
    os << "{" << x.n << " ";
    return put(os, x.s) << "}";
}
template <typename A, typename B>
std::ostream& put(std::ostream& os, const std::pair<A, B>& x);
template <typename... Ts>
std::ostream& put(std::ostream& os, const std::tuple<Ts...>& x)
{
    os << "(";
    std::apply([&](auto&... ys) { ((put(os, ys) << " "), ...); }, x);
    return os << ")";
}
template <typename A, typename B>
std::ostream& put(std::ostream& os, const std::pair<A, B>& x)
{
    return put(os, std::tie(x.first, x.second));
}
template <typename T, std::size_t N>
std::ostream& put(std::ostream& os, const std::array<T, N>& x)
{
    for (auto& y : x)
        put(os, y) << " ";
    return os;
}
inline std::ostream& put(std::ostream& os, const Mid& x)
{
    return put(os, std::tie(x.a, x.p, x.t));
}
inline std::ostream& put(std::ostream& os, const Out& x)
{
    return put(os, std::tie(x.m, x.bm.get(), x.arr, x.s));
}
// ---- generators and printing ------------------------------------------------

template <typename T>
void gen_seq(Case& c, T& x)
{
    using V = std::decay_t<decltype(*x.begin())>;
    for (int n = c.small(4); n > 0; --n) {
        auto v = V{};
        gen(c, v);
        if constexpr (std::is_same_v<T, std::vector<V>>)
            x.push_back(v);
        else
            x = x.push_back(v);
    }
}
template <typename T>
void gen(Case& c, std::vector<T>& x)
{
    gen_seq(c, x);
}
template <typename T>
void gen(Case& c, immer::vector<T>& x)
{
    gen_seq(c, x);
}
template <typename T>
void gen(Case& c, immer::flex_vector<T>& x)
{
    gen_seq(c, x);
}
template <typename T>
void gen(Case& c, immer::array<T>& x)
{
    gen_seq(c, x);
}
template <typename T>
void gen(Case& c, std::map<int, T>& x)
{
    for (int n = c.small(4); n > 0; --n)
        gen(c, x[c.small(4)]);
}
template <typename T>
void gen(Case& c, std::unordered_map<std::string, T>& x)
{
    for (int n = c.small(4); n > 0; --n)
        gen(c, x[std::string(1, static_cast<char>('a' + c.small(4)))]);
}
template <typename T>
void gen(Case& c, immer::map<int, T>& x)
{
    for (int n = c.small(4); n > 0; --n) {
        auto v = T{};
        gen(c, v);
        x = x.set(c.small(4), v);
    }
}
template <typename T>
void gen(Case& c, std::optional<T>& x)
{
    x.reset();
    if (c.below(3)) {
        x.emplace();
        gen(c, *x);
    }
}
template <typename A, typename B, typename C>
void gen(Case& c, std::variant<A, B, C>& x)
{
    switch (c.below(3)) {
    case 0:
        x = A{};
        return gen(c, std::get<A>(x));
    case 1:
        x = B{};
        return gen(c, std::get<B>(x));
    default:
        x = C{};
        return gen(c, std::get<C>(x));
    }
}

template <typename T>
std::ostream& put(std::ostream& os, const std::optional<T>& x)
{
    if (!x)
        return os << "nothing";
    return put(os << "just ", *x);
}
template <typename A, typename B, typename C>
std::ostream& put(std::ostream& os, const std::variant<A, B, C>& x)
{
    os << "#" << x.index() << " ";
    std::visit([&](auto& y) { put(os, y); }, x);
    return os;
}
template <typename T>
auto put(std::ostream& os, const T& x)
    -> decltype(x.begin(), x.size(), (os))
{
    os << "[";
    for (auto& y : x) {
        put(os, y);
        os << ", ";
    }
    return os << "]";
}

inline std::ostream& put(std::ostream& os, const immer::box<Mid>& x)
{
    return put(os, x.get());
}
inline void gen(Case& c, immer::box<Mid>& x)
{
    auto m = Mid{};
    gen(c, m);
    x = m;
}

template <typename T>
std::string str(const T& x)
{
    std::ostringstream os;
    put(os, x);
    return os.str();
}

} // namespace lt
