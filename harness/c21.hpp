// C21, C22: values of nested serializable types: how to generate one, what it
// holds, and the JSON document it should make.
#pragma once

#include <cassert>

#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
#include <lager/extra/cereal/json.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/tuple.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
#include <lager/extra/derive/cereal.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/optional.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>

#include <immer/array.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/set.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>

#include <cstdint>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#include "json_dom.hpp"
#include "pbt.hpp"

using pbt::Case;

namespace {

// make(c): a value.  dom_of(x): the document.  In `size`, an allowance that
// nested containers share so that values stay small.
struct room
{
    int left = 60;
};

template <typename T>
struct ty;

// the same for equal values
inline dom canonical(dom d)
{
    for (auto& i : d.items)
        i = canonical(std::move(i));
    if (d.kind == dom::bag)
        std::sort(d.items.begin(), d.items.end(), [](auto const& a, auto const& b) {
            return write(a) < write(b);
        });
    return d;
}

template <typename T>
std::string text_of(const T& x)
{
    return write(canonical(ty<T>::dom_of(x)));
}

template <>
struct ty<int>
{
    static constexpr bool cheap = true;
    static int make(Case& c, room&) { return c.integer(); }
    static dom dom_of(int x) { return dom::num(x); }
};
template <>
struct ty<bool>
{
    static constexpr bool cheap = true;
    static bool make(Case& c, room&) { return c.flip(); }
    static dom dom_of(bool x) { return dom::boo(x); }
};
template <>
struct ty<double>
{
    static constexpr bool cheap = true;
    static double make(Case& c, room&)
    {
        // exactly representable with a few decimals
        return c.integer() / 8.0;
    }
    static dom dom_of(double x)
    {
        char b[64];
        std::snprintf(b, sizeof(b), "%.17g", x);
        return dom{dom::number, b, false, {}, {}};
    }
};
template <>
struct ty<std::string>
{
    static constexpr bool cheap = false;
    static std::string make(Case& c, room&)
    {
        auto s = std::string{};
        while (s.size() < 40 && c.more(3)) {
            static const char* parts[] = {"a",  "B",    "0",  " ",  "_",
                                          "\"", "\\",   "/",  "\n", "\t",
                                          "\x01", "\x7f", "{", "]",  ":",
                                          "\xc3\xa9", "\xe2\x82\xac", "null"};
            s += parts[c.below(18)];
        }
        return s;
    }
    static dom dom_of(const std::string& x) { return dom::str(x); }
};

// -- sequences ----------------------------------------------------------------

template <typename T>
std::vector<T> make_elements(Case& c, room& r)
{
    auto v = std::vector<T>{};
    if (ty<T>::cheap && r.left > 50 && c.chance(1, 12)) {
        // enough for several levels of a tree
        auto n = 20 + c.below(c.chance(1, 4) ? 1200 : 100);
        r.left = 0;
        auto x = ty<T>::make(c, r);
        for (auto i = 0u; i < n; ++i)
            v.push_back(i % 7 == 3 ? ty<T>::make(c, r) : x);
        return v;
    }
    while (r.left > 0 && c.more(3)) {
        --r.left;
        v.push_back(ty<T>::make(c, r));
    }
    return v;
}

template <typename V>
V push_all(const std::vector<typename V::value_type>& els)
{
    auto v = V{};
    for (auto const& x : els)
        v = v.push_back(x);
    return v;
}

// the same elements in a container with another history
template <typename V>
V build(Case& c, const std::vector<typename V::value_type>& els)
{
    auto how = c.below(4);
    auto n   = els.size();
    switch (how) {
    case 0:
        return push_all<V>(els);
    case 1: // longer before
    {
        auto v = push_all<V>(els);
        auto k = 1 + c.below(40);
        if (n)
            for (auto i = 0u; i < k; ++i)
                v = v.push_back(els[i % n]);
        return v.take(n);
    }
    case 2: // other values before
    {
        auto v = push_all<V>({els.rbegin(), els.rend()});
        for (auto i = n; i-- > 0;)
            v = v.set(i, els[i]);
        return v;
    }
    default:
        if constexpr (requires(V v) { v + v; }) {
            if (n == 0)
                return V{} + V{};
            auto k = c.below(static_cast<std::uint32_t>(n) + 1);
            auto l = std::vector<typename V::value_type>(els.begin(),
                                                         els.begin() + k);
            auto m = std::vector<typename V::value_type>(els.begin() + k,
                                                         els.end());
            auto v = push_all<V>(l) + push_all<V>(m);
            if (c.flip())
                v = (push_all<V>(els) + v).drop(n);
            if (c.flip())
                v = v.insert(k, els[0]).erase(k);
            if (c.flip())
                v = v.push_front(els[0]).drop(1);
            return v;
        } else
            return V(els.begin(), els.end());
    }
}

template <typename V>
struct ty_sequence
{
    static constexpr bool cheap = false;
    using T                     = typename V::value_type;
    static V make(Case& c, room& r) { return build<V>(c, make_elements<T>(c, r)); }
    static dom dom_of(const V& v)
    {
        auto d = dom::arr();
        for (auto const& x : v)
            d.add(ty<T>::dom_of(x));
        return d;
    }
    // the same value with another history
    static V rebuilt(Case& c, const V& v)
    {
        return build<V>(c, std::vector<T>(v.begin(), v.end()));
    }
};
template <typename T>
struct ty<immer::vector<T>> : ty_sequence<immer::vector<T>>
{};
template <typename T>
struct ty<immer::flex_vector<T>> : ty_sequence<immer::flex_vector<T>>
{};
template <typename T>
struct ty<immer::array<T>> : ty_sequence<immer::array<T>>
{};

template <typename T>
struct ty<immer::box<T>>
{
    static constexpr bool cheap = false;
    static immer::box<T> make(Case& c, room& r)
    {
        return immer::box<T>{ty<T>::make(c, r)};
    }
    static dom dom_of(const immer::box<T>& b)
    {
        return dom::obj().put("value", ty<T>::dom_of(*b));
    }
};
// boxes in vectors leave no trace
template <typename T>
struct ty<immer::vector<immer::box<T>>> : ty_sequence<immer::vector<immer::box<T>>>
{
    static dom dom_of(const immer::vector<immer::box<T>>& v)
    {
        auto d = dom::arr();
        for (auto const& x : v)
            d.add(ty<T>::dom_of(*x));
        return d;
    }
};

// -- maps and sets ------------------------------------------------------------

template <typename K, typename T>
struct map_form
{
    static dom dom_of(const K& k, const T& x)
    {
        return dom::obj().put("key", ty<K>::dom_of(k)).put("value", ty<T>::dom_of(x));
    }
    static K key(Case& c, room& r, const T&) { return ty<K>::make(c, r); }
};

template <typename K, typename T, typename H>
struct ty<immer::map<K, T, H>>
{
    static constexpr bool cheap = false;
    using M                     = immer::map<K, T, H>;
    static M make(Case& c, room& r)
    {
        auto m = M{};
        while (r.left > 0 && c.more(4)) {
            --r.left;
            auto x = ty<T>::make(c, r);
            auto k = map_form<K, T>::key(c, r, x);
            if (c.chance(1, 5))
                m = m.erase(k);
            else
                m = m.set(k, x);
        }
        return m;
    }
    static dom dom_of(const M& m)
    {
        auto d = dom::any_order();
        for (auto const& p : m)
            d.add(map_form<K, T>::dom_of(p.first, p.second));
        return d;
    }
};
template <typename T, typename H>
struct ty<immer::set<T, H>>
{
    static constexpr bool cheap = false;
    using S                     = immer::set<T, H>;
    static S make(Case& c, room& r)
    {
        auto m = S{};
        while (r.left > 0 && c.more(4)) {
            --r.left;
            auto x = ty<T>::make(c, r);
            m      = c.chance(1, 5) ? m.erase(x) : m.insert(x);
        }
        return m;
    }
    static dom dom_of(const S& m)
    {
        auto d = dom::any_order();
        for (auto const& x : m)
            d.add(ty<T>::dom_of(x));
        return d;
    }
};

// -- sums and products --------------------------------------------------------

template <>
struct ty<std::monostate>
{
    static constexpr bool cheap = true;
    static std::monostate make(Case&, room&) { return {}; }
    static dom dom_of(std::monostate) { return dom::obj(); }
};
template <typename T>
const char* type_name();
template <>
inline const char* type_name<int>()
{
    return "int";
}
template <>
inline const char* type_name<bool>()
{
    return "bool";
}
template <>
inline const char* type_name<double>()
{
    return "double";
}
template <>
inline const char* type_name<std::monostate>()
{
    return "std::monostate";
}
// for types whose name differs between standard libraries
template <typename T>
const char* type_name()
{
    static const auto s = boost::core::demangle(typeid(T).name());
    return s.c_str();
}

template <typename... Ts>
struct ty<std::variant<Ts...>>
{
    static constexpr bool cheap = false;
    using V                     = std::variant<Ts...>;
    static V make(Case& c, room& r)
    {
        auto k = c.below(sizeof...(Ts));
        auto v = V{};
        auto i = 0u;
        auto f = [&](auto* p) {
            using T = std::decay_t<decltype(*p)>;
            if (i++ == k)
                v.template emplace<T>(ty<T>::make(c, r));
        };
        (f(static_cast<Ts*>(nullptr)), ...);
        return v;
    }
    static dom dom_of(const V& v)
    {
        return std::visit(
            [](auto const& x) {
                using T = std::decay_t<decltype(x)>;
                return dom::obj()
                    .put("type", dom::str(type_name<T>()))
                    .put("data", ty<T>::dom_of(x));
            },
            v);
    }
};
template <typename... Ts>
struct ty<std::tuple<Ts...>>
{
    static constexpr bool cheap = false;
    using V                     = std::tuple<Ts...>;
    static V make(Case& c, room& r) { return V{ty<Ts>::make(c, r)...}; }
    static dom dom_of(const V& v)
    {
        auto d = dom::arr();
        std::apply(
            [&](auto const&... xs) {
                (d.add(ty<std::decay_t<decltype(xs)>>::dom_of(xs)), ...);
            },
            v);
        return d;
    }
};
template <typename T>
struct ty<std::optional<T>>
{
    static constexpr bool cheap = false;
    static std::optional<T> make(Case& c, room& r)
    {
        if (c.flip())
            return ty<T>::make(c, r);
        return std::nullopt;
    }
    static dom dom_of(const std::optional<T>& x)
    {
        auto d = dom::obj().put("nullopt", dom::boo(!x));
        if (x)
            d.put("data", ty<T>::dom_of(*x));
        return d;
    }
};

} // namespace

// -- structs ------------------------------------------------------------------

namespace ns {
enum class color
{
    red,
    green,
    dark_blue = 100
};
struct point
{
    int x;
    std::string label_text;
    double Weight;
};
struct nothing
{};
struct camel
{
    static constexpr auto serialize_camel_case = true;
    int plain;
    std::string snake_case_name;
    bool SCREAMING_CASE;
    int with_2_digits;
    std::optional<int> x_y;
    immer::vector<int> trailing_;
    int v2_0b;
};
struct derived
{
    immer::vector<int> a;
    std::optional<point> b;
    color c;
};
struct derived_nothing
{};
template <typename A, typename B>
struct tpl
{
    A first;
    B second;
};
template <typename A>
struct tpl_derived
{
    A value;
    int count;
};
struct host
{
    struct nested
    {
        int n;
        std::string text;
        LAGER_DERIVE_NESTED((EQ, HANA), nested, n, text);
    };
    struct nested_derived
    {
        int n;
        nested m;
        LAGER_DERIVE_NESTED((EQ, CEREAL), nested_derived, n, m);
    };
};
// elements that carry their own key
struct item
{
    int id;
    std::string name;
};
struct named
{
    std::string id;
    immer::vector<int> data;
};
// `id` is of another type than the keys of the map it is used in
struct other_id
{
    std::string id;
    int data;
};
struct clash
{
    int k;
};
// recursive
struct tree
{
    int value;
    immer::vector<immer::box<tree>> kids;
};
} // namespace ns
LAGER_ENUM(ns, color, red, green, dark_blue);
LAGER_STRUCT(ns, point, x, label_text, Weight);
LAGER_STRUCT(ns, nothing);
LAGER_STRUCT(ns, camel, plain, snake_case_name, SCREAMING_CASE, with_2_digits,
             x_y, trailing_, v2_0b);
LAGER_DERIVE((EQ, CEREAL), ns, derived, a, b, c);
LAGER_DERIVE((EQ, CEREAL), ns, derived_nothing);
LAGER_STRUCT_TEMPLATE(ns, (class A, class B), (tpl<A, B>), first, second);
LAGER_DERIVE_TEMPLATE((EQ, CEREAL), ns, (class A), (tpl_derived<A>), value, count);
LAGER_STRUCT(ns, item, id, name);
LAGER_DERIVE((EQ, CEREAL), ns, named, id, data);
LAGER_STRUCT(ns, other_id, id, data);
LAGER_DERIVE((EQ, CEREAL), ns, clash, k);
LAGER_DERIVE((EQ, CEREAL), ns, tree, value, kids);

namespace {

struct clash_hash
{
    // many values, few hashes
    std::size_t operator()(const ns::clash& x) const
    {
        return static_cast<unsigned>(x.k) % 3;
    }
};

template <>
struct ty<ns::color>
{
    static constexpr bool cheap = true;
    static ns::color make(Case& c, room&)
    {
        static const ns::color cs[] = {
            ns::color::red, ns::color::green, ns::color::dark_blue};
        return cs[c.below(3)];
    }
    static dom dom_of(ns::color x)
    {
        return dom::str(x == ns::color::red     ? "red"
                        : x == ns::color::green ? "green"
                                                : "dark_blue");
    }
};
template <>
inline const char* type_name<ns::color>()
{
    return "ns::color";
}
template <>
inline const char* type_name<ns::point>()
{
    return "ns::point";
}

#define TY_MAKE(m, n) x.m = ty<std::decay_t<decltype(x.m)>>::make(c, r);
#define TY_DOM(m, n) d.put(n, ty<std::decay_t<decltype(x.m)>>::dom_of(x.m));
#define TY_STRUCT(type, list)                                                  \
    template <>                                                                \
    struct ty<type>                                                            \
    {                                                                          \
        static constexpr bool cheap = false;                                   \
        static type make([[maybe_unused]] Case& c, [[maybe_unused]] room& r)   \
        {                                                                      \
            auto x = type{};                                                   \
            list(TY_MAKE);                                                     \
            return x;                                                          \
        }                                                                      \
        static dom dom_of([[maybe_unused]] const type& x)                      \
        {                                                                      \
            auto d = dom::obj();                                               \
            list(TY_DOM);                                                      \
            return d;                                                          \
        }                                                                      \
    }

#define L_POINT(M) M(x, "x") M(label_text, "label_text") M(Weight, "Weight")
#define L_NOTHING(M)
#define L_CAMEL(M)                                                             \
    M(plain, "plain")                                                          \
    M(snake_case_name, "snakeCaseName") M(SCREAMING_CASE, "screamingCase")     \
        M(with_2_digits, "with2Digits") M(x_y, "xY") M(trailing_, "trailing")  \
            M(v2_0b, "v20B")
#define L_DERIVED(M) M(a, "a") M(b, "b") M(c, "c")
#define L_TPL(M) M(first, "first") M(second, "second")
#define L_TPLD(M) M(value, "value") M(count, "count")
#define L_NESTED(M) M(n, "n") M(text, "text")
#define L_NESTEDD(M) M(n, "n") M(m, "m")
#define L_ITEM(M) M(id, "id") M(name, "name")
#define L_NAMED(M) M(id, "id") M(data, "data")
#define L_CLASH(M) M(k, "k")
TY_STRUCT(ns::point, L_POINT);
TY_STRUCT(ns::nothing, L_NOTHING);
TY_STRUCT(ns::camel, L_CAMEL);
TY_STRUCT(ns::derived, L_DERIVED);
TY_STRUCT(ns::derived_nothing, L_NOTHING);
using tpl_t = ns::tpl<int, immer::box<ns::point>>;
using tpl_d = ns::tpl_derived<immer::vector<std::string>>;
TY_STRUCT(tpl_t, L_TPL);
TY_STRUCT(tpl_d, L_TPLD);
TY_STRUCT(ns::host::nested, L_NESTED);
TY_STRUCT(ns::host::nested_derived, L_NESTEDD);
TY_STRUCT(ns::item, L_ITEM);
TY_STRUCT(ns::named, L_NAMED);
TY_STRUCT(ns::other_id, L_NAMED);
TY_STRUCT(ns::clash, L_CLASH);
template <>
struct ty<ns::tree>
{
    static constexpr bool cheap = false;
    static ns::tree make(Case& c, room& r)
    {
        auto t  = ns::tree{};
        t.value = c.integer();
        while (r.left > 0 && t.kids.size() < 5 && c.more(1)) {
            --r.left;
            t.kids = t.kids.push_back(make(c, r));
        }
        return t;
    }
    static dom dom_of(const ns::tree& t)
    {
        auto d = dom::arr();
        for (auto const& k : t.kids)
            d.add(dom_of(*k));
        return dom::obj().put("value", dom::num(t.value)).put("kids", d);
    }
};
template <>
struct map_form<int, ns::item>
{
    static dom dom_of(int, const ns::item& x) { return ty<ns::item>::dom_of(x); }
    static int key(Case&, room&, const ns::item& x) { return x.id; }
};
template <>
struct map_form<std::string, ns::named>
{
    static dom dom_of(const std::string&, const ns::named& x)
    {
        return ty<ns::named>::dom_of(x);
    }
    static std::string key(Case&, room&, const ns::named& x) { return x.id; }
};

using map_is = immer::map<int, std::string>;
using map_sv = immer::map<std::string, immer::vector<int>>;
using map_ci = immer::map<ns::clash, int, clash_hash>;
using map_ii = immer::map<int, ns::item>;
using map_sn = immer::map<std::string, ns::named>;
using map_io = immer::map<int, ns::other_id>;
using map_mm = immer::map<int, immer::map<std::string, int>>;
using map_co = immer::map<ns::color, immer::set<int>>;
using set_i  = immer::set<int>;
using set_s  = immer::set<std::string>;
using set_c  = immer::set<ns::clash, clash_hash>;
using var_a  = std::variant<int, std::string, std::monostate>;
using var_b  = std::variant<immer::vector<int>, ns::point, map_is, bool, ns::color>;
using var_n  = std::variant<std::monostate, var_a, immer::vector<var_a>, double>;
using tup_a  = std::tuple<int, std::string, bool>;
using tup_e  = std::tuple<>;
using tup_n  = std::tuple<tup_a, immer::vector<var_a>, std::optional<tup_e>, set_i>;

// -- archives -----------------------------------------------------------------

struct json_archive
{
    static constexpr const char* name = "json";
    using out                         = cereal::JSONOutputArchive;
    using in                          = cereal::JSONInputArchive;
};
struct binary_archive
{
    static constexpr const char* name = "binary";
    using out                         = cereal::BinaryOutputArchive;
    using in                          = cereal::BinaryInputArchive;
};
struct portable_archive
{
    static constexpr const char* name = "portable binary";
    using out                         = cereal::PortableBinaryOutputArchive;
    using in                          = cereal::PortableBinaryInputArchive;
};

template <typename A, typename... Ts>
std::string save(const Ts&... xs)
{
    std::ostringstream os;
    {
        typename A::out ar{os};
        ar(xs...);
    }
    return os.str();
}
template <typename A, typename... Ts>
void load(const std::string& doc, Ts&... xs)
{
    std::istringstream is{doc};
    typename A::in ar{is};
    ar(xs...);
}

} // namespace
