// C22: loading documents that were not made by saving.
//
// `dec<T>::ok` tells for a JSON document tree whether loading it as a T has to
// succeed (and with which value), has to fail, or may do either.
#pragma once

#include "c21.hpp"

#include <climits>
#include <set>

namespace {

enum class verdict
{
    yes,
    maybe,
    no
};
inline verdict operator&(verdict a, verdict b)
{
    return a < b ? b : a;
}

template <typename T>
struct dec;

inline bool plain_integer(const std::string& s)
{
    auto i = s[0] == '-' ? 1u : 0u;
    if (i == s.size() || s.size() > 18)
        return false;
    for (; i < s.size(); ++i)
        if (s[i] < '0' || s[i] > '9')
            return false;
    return true;
}

template <>
struct dec<int>
{
    static verdict ok(const dom& d, dom& out)
    {
        out = d;
        if (d.kind != dom::number)
            return verdict::no;
        if (!plain_integer(d.s)) // a fraction or too large
            return verdict::no;
        auto x = std::strtoll(d.s.c_str(), nullptr, 10);
        if (d.s == "-0")
            return verdict::maybe;
        return x >= INT_MIN && x <= INT_MAX ? verdict::yes : verdict::no;
    }
};
template <>
struct dec<bool>
{
    static verdict ok(const dom& d, dom& out)
    {
        out = d;
        return d.kind == dom::boolean ? verdict::yes : verdict::no;
    }
};
template <>
struct dec<double>
{
    static verdict ok(const dom& d, dom& out)
    {
        out = d;
        if (d.kind != dom::number)
            return verdict::no;
        char b[64];
        std::snprintf(
            b, sizeof(b), "%.17g", std::strtod(d.s.c_str(), nullptr));
        out.s = b;
        return d.s[0] == '-' && out.s == "-0" ? verdict::maybe : verdict::yes;
    }
};
template <>
struct dec<std::string>
{
    static verdict ok(const dom& d, dom& out)
    {
        out = d;
        if (d.kind != dom::text)
            return verdict::no;
        return d.s.find('\0') != std::string::npos ? verdict::maybe
                                                   : verdict::yes;
    }
};
template <>
struct dec<ns::color>
{
    static verdict ok(const dom& d, dom& out)
    {
        out = d;
        if (d.kind != dom::text)
            return verdict::no;
        if (d.s.find('\0') != std::string::npos)
            return verdict::maybe;
        return d.s == "red" || d.s == "green" || d.s == "dark_blue"
                   ? verdict::yes
                   : verdict::no;
    }
};
template <>
struct dec<std::monostate>
{
    static verdict ok(const dom& d, dom& out)
    {
        out = dom::obj();
        return d.kind == dom::object ? verdict::yes : verdict::maybe;
    }
};

template <typename T>
verdict elements(const dom& d, dom& out, dom::kind_t kind = dom::array)
{
    out      = dom::arr();
    out.kind = kind;
    if (d.kind != dom::array)
        return verdict::no;
    auto r = verdict::yes;
    for (auto const& i : d.items) {
        auto o = dom{};
        r      = r & dec<T>::ok(i, o);
        out.add(o);
    }
    return r;
}

template <typename T>
struct dec<immer::vector<T>>
{
    static verdict ok(const dom& d, dom& out) { return elements<T>(d, out); }
};
template <typename T>
struct dec<immer::flex_vector<T>>
{
    static verdict ok(const dom& d, dom& out) { return elements<T>(d, out); }
};
template <typename T>
struct dec<immer::array<T>>
{
    static verdict ok(const dom& d, dom& out) { return elements<T>(d, out); }
};
template <typename T>
struct dec<immer::vector<immer::box<T>>>
{
    static verdict ok(const dom& d, dom& out) { return elements<T>(d, out); }
};

// objects with given members
struct object_check
{
    const dom& d;
    dom& out;
    verdict r = verdict::yes;

    object_check(const dom& d_, dom& o)
        : d{d_}
        , out{o}
    {
        out = dom::obj();
        if (d.kind != dom::object)
            r = verdict::no;
        else {
            auto seen = std::set<std::string>{};
            for (auto const& k : d.keys)
                if (!seen.insert(k).second)
                    r = r & verdict::maybe;
        }
    }
    const dom* find(const char* k)
    {
        if (d.kind == dom::object)
            for (auto i = 0u; i < d.keys.size(); ++i)
                if (d.keys[i] == k)
                    return &d.items[i];
        r = r & verdict::no;
        return nullptr;
    }
    template <typename T>
    void member(const char* k)
    {
        auto o = dom{};
        if (auto x = find(k)) {
            auto twice =
                std::count(d.keys.begin(), d.keys.end(), std::string{k}) > 1;
            auto v = dec<T>::ok(*x, o);
            r      = r & (twice ? verdict::maybe : v);
        }
        out.put(k, o);
    }
};

template <typename T>
struct dec<immer::box<T>>
{
    static verdict ok(const dom& d, dom& out)
    {
        auto o = object_check{d, out};
        o.member<T>("value");
        return o.r;
    }
};
template <typename K, typename T>
struct entry
{};
template <typename K, typename T>
struct dec<entry<K, T>>
{
    static verdict ok(const dom& d, dom& out)
    {
        auto o = object_check{d, out};
        o.member<K>("key");
        o.member<T>("value");
        return o.r;
    }
};

// elements have to differ in what `key` tells
template <typename F>
verdict no_duplicates(const dom& d, F&& key)
{
    auto seen = std::set<std::string>{};
    for (auto const& i : d.items)
        if (!seen.insert(key(i)).second)
            return verdict::no;
    return verdict::yes;
}
inline std::string member_text(const dom& d, const char* k)
{
    for (auto i = 0u; i < d.keys.size(); ++i)
        if (d.keys[i] == k)
            return write(canonical(d.items[i]));
    return {};
}

template <typename K, typename T, typename H>
struct dec<immer::map<K, T, H>>
{
    static verdict ok(const dom& d, dom& out)
    {
        auto r = elements<entry<K, T>>(d, out, dom::bag);
        if (r == verdict::no)
            return r;
        auto u = no_duplicates(
            out, [](auto const& i) { return member_text(i, "key"); });
        // where an element is not certain, neither is its key
        return r == verdict::yes ? u : verdict::maybe;
    }
};
template <typename K, typename T>
verdict by_id(const dom& d, dom& out)
{
    auto r = elements<T>(d, out, dom::bag);
    if (r != verdict::yes)
        return r;
    return no_duplicates(out,
                         [](auto const& i) { return member_text(i, "id"); });
}
template <>
struct dec<map_ii>
{
    static verdict ok(const dom& d, dom& out)
    {
        return by_id<int, ns::item>(d, out);
    }
};
template <>
struct dec<map_sn>
{
    static verdict ok(const dom& d, dom& out)
    {
        return by_id<std::string, ns::named>(d, out);
    }
};
template <typename T, typename H>
struct dec<immer::set<T, H>>
{
    static verdict ok(const dom& d, dom& out)
    {
        auto r = elements<T>(d, out, dom::bag);
        if (r != verdict::yes)
            return r;
        return no_duplicates(
            out, [](auto const& i) { return write(canonical(i)); });
    }
};
template <typename... Ts>
struct dec<std::variant<Ts...>>
{
    static verdict ok(const dom& d, dom& out)
    {
        auto o = object_check{d, out};
        if (o.r == verdict::no)
            return o.r;
        auto t = o.find("type");
        if (!t || t->kind != dom::text)
            return verdict::no;
        auto r = verdict::no;
        auto f = [&](auto* p) {
            using T = std::decay_t<decltype(*p)>;
            if (t->s == type_name<T>()) {
                o.out.put("type", *t);
                o.member<T>("data");
                r = o.r;
            }
        };
        (f(static_cast<Ts*>(nullptr)), ...);
        if (std::count(d.keys.begin(), d.keys.end(), "type") > 1)
            return verdict::maybe;
        return r;
    }
};
template <typename... Ts>
struct dec<std::tuple<Ts...>>
{
    static verdict ok(const dom& d, dom& out)
    {
        out = dom::arr();
        if (d.kind != dom::array || d.items.size() != sizeof...(Ts))
            return verdict::no;
        auto r = verdict::yes;
        auto i = 0u;
        auto f = [&](auto* p) {
            using T = std::decay_t<decltype(*p)>;
            auto o  = dom{};
            r       = r & dec<T>::ok(d.items[i++], o);
            out.add(o);
        };
        (f(static_cast<Ts*>(nullptr)), ...);
        return r;
    }
};
template <typename T>
struct dec<std::optional<T>>
{
    static verdict ok(const dom& d, dom& out)
    {
        auto o = object_check{d, out};
        o.member<bool>("nullopt");
        if (o.r == verdict::no)
            return o.r;
        if (!o.out.items[0].b) {
            auto rest = object_check{d, out};
            rest.member<bool>("nullopt");
            rest.member<T>("data");
            return rest.r;
        }
        return o.r;
    }
};

#define DEC_MEMBER(m, n) o.member<std::decay_t<decltype(x->m)>>(n);
#define DEC_STRUCT(type, list)                                                 \
    template <>                                                                \
    struct dec<type>                                                           \
    {                                                                          \
        static verdict ok(const dom& d, dom& out)                              \
        {                                                                      \
            auto o                    = object_check{d, out};                  \
            [[maybe_unused]] type* x  = nullptr;                               \
            list(DEC_MEMBER);                                                  \
            if (o.out.items.empty() && d.kind != dom::object)                  \
                return verdict::maybe;                                         \
            return o.r;                                                        \
        }                                                                      \
    }
DEC_STRUCT(ns::point, L_POINT);
DEC_STRUCT(ns::nothing, L_NOTHING);
DEC_STRUCT(ns::camel, L_CAMEL);
DEC_STRUCT(ns::derived, L_DERIVED);
DEC_STRUCT(tpl_t, L_TPL);
DEC_STRUCT(ns::host::nested, L_NESTED);
DEC_STRUCT(ns::host::nested_derived, L_NESTEDD);
DEC_STRUCT(ns::item, L_ITEM);
DEC_STRUCT(ns::named, L_NAMED);
DEC_STRUCT(ns::clash, L_CLASH);
template <>
struct dec<ns::tree>
{
    static verdict ok(const dom& d, dom& out)
    {
        auto o = object_check{d, out};
        o.member<int>("value");
        o.member<immer::vector<immer::box<ns::tree>>>("kids");
        return o.r;
    }
};

// -- documents ----------------------------------------------------------------

inline dom any_dom(Case& c, int depth)
{
    static const char* words[] = {"value", "key",  "type",    "data", "nullopt",
                                  "x",     "int",  "a",       "id",   "red",
                                  "name",  "kids", "ns::point"};
    switch (c.below(depth > 0 ? 8 : 5)) {
    case 0:
        return dom{};
    case 1:
        return dom::boo(c.flip());
    case 2: {
        static const char* ns[] = {"0", "-1", "2147483648", "-2147483649", "1.5",
                                   "-0", "99999999999999999999", "1e30",
                                   "18446744073709551616", "0.0"};
        if (c.flip())
            return dom{dom::number, ns[c.below(10)], false, {}, {}};
        return dom::num(c.integer());
    }
    case 3:
        return dom::str(words[c.below(13)]);
    case 4: {
        auto r = room{};
        return dom::str(ty<std::string>::make(c, r));
    }
    case 5:
    case 6: {
        auto d = dom::arr();
        while (d.items.size() < 4 && c.more(2))
            d.add(any_dom(c, depth - 1));
        return d;
    }
    default: {
        auto d = dom::obj();
        while (d.items.size() < 4 && c.more(2))
            d.put(words[c.below(13)], any_dom(c, depth - 1));
        return d;
    }
    }
}

inline void places(dom& d, std::vector<dom*>& out)
{
    out.push_back(&d);
    if (out.size() < 400)
        for (auto& i : d.items)
            places(i, out);
}

inline const char* mutate(Case& c, dom& root)
{
    auto ps = std::vector<dom*>{};
    places(root, ps);
    auto& d = *ps[c.below(static_cast<std::uint32_t>(ps.size()))];
    auto at = [&] { return c.below(static_cast<std::uint32_t>(d.items.size())); };
    switch (c.below(11)) {
    case 0:
        d = any_dom(c, 2);
        return "replaced";
    case 1:
        if (d.items.empty())
            return nullptr;
        {
            auto i = at();
            d.items.erase(d.items.begin() + i);
            if (!d.keys.empty())
                d.keys.erase(d.keys.begin() + i);
        }
        return "removed";
    case 2:
        if (d.items.empty() || d.kind == dom::object)
            return nullptr;
        d.items.insert(d.items.begin() + at(), d.items[at()]);
        return "duplicated";
    case 3: // the key of one element for another
        if (d.items.size() < 2 || d.kind == dom::object)
            return nullptr;
        {
            auto &a = d.items[at()], &b = d.items[at()];
            if (a.kind != dom::object || a.items.empty() || a.keys != b.keys)
                return nullptr;
            a.items[0] = b.items[0];
        }
        return "same key";
    case 4:
        if (d.kind != dom::text || d.s.empty())
            return nullptr;
        {
            auto i = c.below(static_cast<std::uint32_t>(d.s.size()));
            switch (c.below(4)) {
            case 0:
                d.s.erase(i, 1);
                break;
            case 1:
                d.s.insert(i, 1, d.s[i]);
                break;
            case 2:
                d.s[i] = static_cast<char>(d.s[i] ^ 0x20);
                if (static_cast<unsigned char>(d.s[i]) >= 0x80 || !d.s[i])
                    d.s[i] = 'x';
                break;
            default:
                d.s.resize(i);
            }
            // keep it text
            for (auto ch : d.s)
                if (static_cast<unsigned char>(ch) >= 0x80)
                    d.s = "cut";
        }
        return "misspelt";
    case 5:
        if (d.keys.empty())
            return nullptr;
        d.keys[at()] += "x";
        return "renamed";
    case 6: // another order
        if (d.items.size() < 2)
            return nullptr;
        {
            auto i = at(), j = at();
            std::swap(d.items[i], d.items[j]);
            if (!d.keys.empty())
                std::swap(d.keys[i], d.keys[j]);
        }
        return "swapped";
    case 7:
        if (d.kind != dom::object)
            return nullptr;
        d.put(c.flip() ? "extra" : "value9", any_dom(c, 1));
        return "added a member";
    case 8:
        if (d.kind != dom::array && d.kind != dom::bag)
            return nullptr;
        d.add(d.items.empty() ? any_dom(c, 1) : any_dom(c, 2));
        return "added an element";
    case 9: { // one part for another
        auto& e    = *ps[c.below(static_cast<std::uint32_t>(ps.size()))];
        auto copy  = e;
        d          = copy;
        return "transplanted";
    }
    default:
        if (d.kind != dom::number)
            return nullptr;
        if (c.flip())
            d.s += ".5";
        else if (plain_integer(d.s) && d.s.find_first_not_of("-0") == (d.s[0] == '-'))
            d.s += "0000000000";
        if (d.s.find('.') != d.s.rfind('.'))
            d.s = "7";
        return "another number";
    }
}

inline dom settled(dom d)
{
    if (d.kind == dom::bag)
        d.kind = dom::array;
    for (auto& i : d.items)
        i = settled(std::move(i));
    return d;
}

// -- the checks ---------------------------------------------------------------

// whatever happened to it, `y` is something to work with
template <typename A, typename T>
void check_usable(Case& c, T& y)
{
    auto text = text_of(y);
    auto copy = y;
    P_EQ(text_of(copy), text);
    auto doc = save<A>(copy);
    auto z   = T{};
    load<A>(doc, z);
    P_EQ(text_of(z), text);
    auto r = room{15};
    auto x = ty<T>::make(c, r);
    load<A>(save<A>(x), y);
    P_CHECK(y == x);
    P_EQ(text_of(copy), text);
}

template <typename T>
void load_tree(Case& c, const dom& d, bool inlined)
{
    auto out = dom{};
    auto v   = dec<T>::ok(d, out);
    auto r   = room{10};
    auto y   = c.flip() ? ty<T>::make(c, r) : T{};
    auto doc = write(inlined ? d : dom::obj().put("value0", d));
    if (c.chance(1, 3)) {
        // white space is nothing
        doc = " \n" + doc + "\t ";
    }
    auto loaded = true;
    auto what   = std::string{};
    try {
        if (inlined)
            y = lager::from_json<T>(doc);
        else
            load<json_archive>(doc, y);
    } catch (const std::exception& e) {
        loaded = false;
        what   = e.what();
    }
    c.log(boost::core::demangle(typeid(T).name()), " ", doc, loaded ? " loaded" : " " + what);
    c.label(v == verdict::yes  ? "to accept"
            : v == verdict::no ? "to reject"
                               : "either");
    if (v == verdict::yes) {
        P_CHECK(loaded, "rejected: " << what);
        P_EQ(text_of(y), write(canonical(out)));
    } else if (v == verdict::no)
        P_CHECK(!loaded, "accepted as " << text_of(y));
    check_usable<json_archive>(c, y);
}

template <typename T>
void mutated(Case& c)
{
    auto r = room{20};
    auto x = ty<T>::make(c, r);
    auto d = settled(ty<T>::dom_of(x));
    auto n = 1 + c.below(c.chance(1, 3) ? 4 : 1);
    for (auto i = 0u; i < n; ++i)
        if (auto how = mutate(c, d)) {
            c.log(how);
            c.nontrivial();
        }
    load_tree<T>(c, d, c.flip());
}

template <typename T>
void arbitrary(Case& c)
{
    c.nontrivial();
    load_tree<T>(c, any_dom(c, 4), c.flip());
}

// not even a document
template <typename T>
void garbled(Case& c)
{
    auto r   = room{20};
    auto x   = ty<T>::make(c, r);
    auto doc = save<json_archive>(x);
    auto y   = ty<T>::make(c, r);
    auto must_fail = false;
    switch (c.below(3)) {
    case 0: { // cut off
        auto n = c.below(static_cast<std::uint32_t>(doc.find_last_of('}')) + 1);
        doc.resize(n);
        must_fail = true;
        break;
    }
    case 1: {
        auto n = 1 + c.below(4);
        for (auto i = 0u; i < n; ++i) {
            auto p = c.below(static_cast<std::uint32_t>(doc.size()));
            switch (c.below(3)) {
            case 0:
                doc[p] = "{}[]\",:0eE.-\\ntu \x01\xff"[c.below(20)];
                break;
            case 1:
                doc.insert(p, 1, "{}[]\",:0eE.-\\ntu \x01\xff"[c.below(20)]);
                break;
            default:
                doc.erase(p, 1);
                if (doc.empty())
                    doc = "x";
            }
        }
        break;
    }
    default: {
        doc.clear();
        while (doc.size() < 40 && c.more(8))
            doc += static_cast<char>(c.below(256));
    }
    }
    c.nontrivial();
    c.log(boost::core::demangle(typeid(T).name()), " ", doc);
    auto loaded = true;
    try {
        load<json_archive>(doc, y);
    } catch (const std::exception&) {
        loaded = false;
    }
    c.label(loaded ? "loaded" : "failed");
    P_CHECK(!must_fail || !loaded, "a document that was cut off was accepted");
    if (loaded) {
        // text may have become something else; but it is a value
        (void) text_of(y);
        auto copy = y;
        y         = copy;
        y         = x;
    } else {
        auto z = T{};
        load<json_archive>(save<json_archive>(x), y);
        P_CHECK(y == x);
        (void) z;
    }
}

template <typename A, typename T>
void cut_off(Case& c)
{
    auto r   = room{20};
    auto x   = ty<T>::make(c, r);
    auto doc = save<A>(x);
    if (doc.empty())
        throw pbt::discarded{};
    auto y = ty<T>::make(c, r);
    for (auto k = 0; k < 4; ++k) {
        auto n   = c.below(static_cast<std::uint32_t>(doc.size()));
        auto cut = doc.substr(0, n);
        c.log(A::name, " ", boost::core::demangle(typeid(T).name()), " ", n,
              " of ", doc.size(), " bytes");
        c.nontrivial(n > 0);
        auto loaded = true;
        try {
            load<A>(cut, y);
        } catch (const std::exception&) {
            loaded = false;
        }
        P_CHECK(!loaded, "a document that was cut off was accepted");
        (void) text_of(y);
        if (c.flip())
            check_usable<A>(c, y);
    }
    load<A>(doc, y);
    P_CHECK(y == x);
}

template <template <typename> class F, typename... Ts>
void one_of(Case& c)
{
    auto k = c.below(sizeof...(Ts));
    auto i = 0u;
    ((i++ == k ? (F<Ts>{}(c), 0) : 0), ...);
}
template <typename T>
struct do_mutated
{
    void operator()(Case& c) const { mutated<T>(c); }
};
template <typename T>
struct do_arbitrary
{
    void operator()(Case& c) const { arbitrary<T>(c); }
};
template <typename T>
struct do_garbled
{
    void operator()(Case& c) const { garbled<T>(c); }
};
template <typename T>
struct do_cut
{
    void operator()(Case& c) const
    {
        c.flip() ? cut_off<binary_archive, T>(c)
                 : cut_off<portable_archive, T>(c);
    }
};

#define MALFORMED(name, ...)                                                   \
    PBT_TARGET(mutated_##name, 4, "the document was changed")                  \
    {                                                                          \
        one_of<do_mutated, __VA_ARGS__>(c);                                    \
    }                                                                          \
    PBT_TARGET(arbitrary_##name, 1, "every case")                              \
    {                                                                          \
        one_of<do_arbitrary, __VA_ARGS__>(c);                                  \
    }                                                                          \
    PBT_TARGET(garbled_##name, 2, "every case")                                \
    {                                                                          \
        one_of<do_garbled, __VA_ARGS__>(c);                                    \
    }                                                                          \
    PBT_TARGET(cut_##name, 2, "something was left")                            \
    {                                                                          \
        one_of<do_cut, __VA_ARGS__>(c);                                        \
    }

} // namespace
