// C24: names of enumerations and back.
//
// Every enumeration below is listed twice: once for the library and once, by
// hand, as the table the checks go by.
#include <cassert>

#include <lager/extra/enum.hpp>
// the conversions for serialization go through the same tables
#include <cereal/archives/json.hpp>
#include <cereal/types/string.hpp>

#include <algorithm>
#include <cstdint>
#include <limits>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "pbt.hpp"

using pbt::Case;

namespace one {
enum class single
{
    only
};
enum class signs : signed char
{
    minus = -1,
    zero  = 0,
    plus  = 1,
    least = -128,
    most  = 127
};
} // namespace one

namespace two::inner {
// names that are parts of each other, or differ in case only
enum class close : std::uint8_t
{
    a,
    A,
    aa,
    aA,
    a_,
    _a,
    ab,
    abc,
    abcd,
    b = 200,
    bcd,
    unlisted_one,
    unlisted_two = 255
};
// not scoped, with a fixed type
enum plain_old : short
{
    first      = 10,
    second     = 20,
    third      = 30,
    farthest   = 32767,
    below_zero = -32768
};
} // namespace two::inner

namespace two {
struct outer
{
    // declared inside of a class; out of order
    enum class nested : std::uint64_t
    {
        top    = 0xffffffffffffffffull,
        half   = 0x8000000000000000ull,
        thirty = 0x100000000ull,
        low    = 1,
        none   = 0
    };
};
enum class flags : int
{
    read            = 1,
    write           = 2,
    read_write      = 3,
    execute         = 4,
    everything      = 2147483647,
    nothing_at_all_ = -2147483647 - 1
};
// two names of one value: the first one listed stands for it
enum class aliased
{
    red   = 1,
    green = 2,
    blue  = 3,
    lime  = 2,
    azure = 3
};
// longer than what fits in small buffers
enum class wide : char
{
    w00, w01, w02, w03, w04, w05, w06, w07, w08, w09, w10, w11, w12, w13, w14,
    w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29,
    a_rather_long_name_that_does_not_fit_in_any_small_string_buffer_at_all,
    a_rather_long_name_that_does_not_fit_in_any_small_string_buffer_at_al,
    a_rather_long_name_that_does_not_fit_in_any_small_string_buffer_at_alL
};
} // namespace two

// the same name in another namespace has its own list
namespace three {
enum class single : bool
{
    no,
    yes
};
} // namespace three

LAGER_ENUM(one, single, only);
LAGER_ENUM(one, signs, minus, zero, plus, least, most);
LAGER_ENUM(two::inner, close, a, A, aa, aA, a_, _a, ab, abc, abcd, b, bcd);
LAGER_ENUM(two::inner, plain_old, first, second, third, farthest, below_zero);
LAGER_ENUM(two::outer, nested, top, half, thirty, low, none);
LAGER_ENUM(two, flags, read, write, read_write, execute, everything,
           nothing_at_all_);
LAGER_ENUM(two, aliased, red, green, blue, lime, azure);
LAGER_ENUM(
    two, wide, w00, w01, w02, w03, w04, w05, w06, w07, w08, w09, w10, w11, w12,
    w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27,
    w28, w29,
    a_rather_long_name_that_does_not_fit_in_any_small_string_buffer_at_all,
    a_rather_long_name_that_does_not_fit_in_any_small_string_buffer_at_al,
    a_rather_long_name_that_does_not_fit_in_any_small_string_buffer_at_alL);
LAGER_ENUM(three, single, no, yes);

namespace {

template <typename E>
using table_t = std::vector<std::pair<E, std::string>>;

template <typename E>
const table_t<E>& table();

template <>
const table_t<one::single>& table()
{
    static const auto t = table_t<one::single>{{one::single::only, "only"}};
    return t;
}
template <>
const table_t<one::signs>& table()
{
    static const auto t = table_t<one::signs>{{one::signs(-1), "minus"},
                                              {one::signs(0), "zero"},
                                              {one::signs(1), "plus"},
                                              {one::signs(-128), "least"},
                                              {one::signs(127), "most"}};
    return t;
}
template <>
const table_t<two::inner::close>& table()
{
    using e             = two::inner::close;
    static const auto t = table_t<e>{{e(0), "a"},
                                     {e(1), "A"},
                                     {e(2), "aa"},
                                     {e(3), "aA"},
                                     {e(4), "a_"},
                                     {e(5), "_a"},
                                     {e(6), "ab"},
                                     {e(7), "abc"},
                                     {e(8), "abcd"},
                                     {e(200), "b"},
                                     {e(201), "bcd"}};
    return t;
}
template <>
const table_t<two::inner::plain_old>& table()
{
    using e             = two::inner::plain_old;
    static const auto t = table_t<e>{{e(10), "first"},
                                     {e(20), "second"},
                                     {e(30), "third"},
                                     {e(32767), "farthest"},
                                     {e(-32768), "below_zero"}};
    return t;
}
template <>
const table_t<two::outer::nested>& table()
{
    using e             = two::outer::nested;
    static const auto t = table_t<e>{{e(0xffffffffffffffffull), "top"},
                                     {e(0x8000000000000000ull), "half"},
                                     {e(0x100000000ull), "thirty"},
                                     {e(1), "low"},
                                     {e(0), "none"}};
    return t;
}
template <>
const table_t<two::flags>& table()
{
    using e             = two::flags;
    static const auto t = table_t<e>{{e(1), "read"},
                                     {e(2), "write"},
                                     {e(3), "read_write"},
                                     {e(4), "execute"},
                                     {e(2147483647), "everything"},
                                     {e(-2147483647 - 1), "nothing_at_all_"}};
    return t;
}
template <>
const table_t<two::aliased>& table()
{
    using e             = two::aliased;
    static const auto t = table_t<e>{
        {e(1), "red"}, {e(2), "green"}, {e(3), "blue"}, {e(2), "lime"}, {e(3), "azure"}};
    return t;
}
template <>
const table_t<two::wide>& table()
{
    using e             = two::wide;
    static const auto t = [] {
        auto r = table_t<e>{};
        for (auto i = 0; i < 30; ++i)
            r.push_back({e(i), (i < 10 ? "w0" : "w") + std::to_string(i)});
        auto s = std::string{"a_rather_long_name_that_does_not_fit_in_any_small_"
                             "string_buffer_at_al"};
        r.push_back({e(30), s + "l"});
        r.push_back({e(31), s});
        r.push_back({e(32), s + "L"});
        return r;
    }();
    return t;
}
template <>
const table_t<three::single>& table()
{
    using e             = three::single;
    static const auto t = table_t<e>{{e(false), "no"}, {e(true), "yes"}};
    return t;
}

// runs something that should give a value or an error
template <typename Fn>
auto outcome(Fn&& fn) -> std::pair<bool, decltype(fn())>
{
    try {
        return {true, fn()};
    } catch (const std::runtime_error&) {
        return {false, {}};
    }
}

// through a JSON document, which uses the same conversions
template <typename E>
std::string saved(E e)
{
    std::ostringstream os;
    {
        cereal::JSONOutputArchive ar{os};
        ar(cereal::make_nvp("v", e));
    }
    return os.str();
}
template <typename E>
E loaded(const std::string& doc)
{
    std::istringstream is{doc};
    cereal::JSONInputArchive ar{is};
    auto e = E{};
    ar(cereal::make_nvp("v", e));
    return e;
}

template <typename E>
void check_value(Case& c, E e)
{
    auto& t = table<E>();
    auto i  = std::find_if(
        t.begin(), t.end(), [&](auto const& p) { return p.first == e; });
    auto r = outcome([&] { return std::string{lager::to_string(e)}; });
    auto s = outcome([&] { return saved(e); });
    if (i == t.end()) {
        c.label("not listed");
        P_CHECK(!r.first, "a value that is not listed has the name " << r.second);
        P_CHECK(!s.first, "a value that is not listed was saved as " << s.second);
    } else {
        c.label("listed");
        P_CHECK(r.first, "a listed value has no name: " << i->second);
        P_EQ(r.second, i->second);
        auto back = outcome([&] { return lager::to_enum<E>(r.second); });
        P_CHECK(back.first && back.second == e);
        P_CHECK(s.first);
        P_CHECK(s.second.find("\"" + i->second + "\"") != std::string::npos,
                s.second);
        P_CHECK(loaded<E>(s.second) == e);
    }
}

template <typename E>
void check_name(Case& c, const std::string& n)
{
    auto& t = table<E>();
    auto i  = std::find_if(
        t.begin(), t.end(), [&](auto const& p) { return p.second == n; });
    auto r = outcome([&] { return lager::to_enum<E>(n); });
    if (i == t.end()) {
        c.label("no such name");
        P_CHECK(!r.first, "'" << n << "' is not a name but was accepted");
    } else {
        c.label("a name");
        P_CHECK(r.first, "'" << n << "' was rejected");
        P_CHECK(r.second == i->first, n);
    }
}

template <typename E>
void values(Case& c)
{
    using u = std::underlying_type_t<E>;
    auto& t = table<E>();
    for (auto k = 0; k < 12 && (k == 0 || c.more(8)); ++k) {
        auto pickd = t[c.below(static_cast<std::uint32_t>(t.size()))].first;
        auto x     = static_cast<u>(pickd);
        switch (c.below(5)) {
        case 0:
            break;
        case 1: // next to a listed one
            if constexpr (!std::is_same_v<u, bool>)
                x = static_cast<u>(static_cast<std::uint64_t>(x) + c.below(5) -
                                   2);
            break;
        case 2: // a bit apart
            if constexpr (!std::is_same_v<u, bool>)
                x = static_cast<u>(static_cast<std::uint64_t>(x) ^
                                   (std::uint64_t{1} << c.below(64)));
            break;
        case 3:
            x = static_cast<u>(c.integer());
            break;
        default:
            x = static_cast<u>((static_cast<std::uint64_t>(c.below(0)) << 32) |
                               c.below(0));
        }
        c.nontrivial(std::none_of(t.begin(), t.end(), [&](auto const& p) {
            return p.first == static_cast<E>(x);
        }));
        c.log("value ", +x);
        check_value(c, static_cast<E>(x));
    }
}

template <typename E>
void names(Case& c)
{
    auto& t = table<E>();
    for (auto k = 0; k < 12 && (k == 0 || c.more(8)); ++k) {
        auto n = t[c.below(static_cast<std::uint32_t>(t.size()))].second;
        auto at = [&] { return c.below(static_cast<std::uint32_t>(n.size())); };
        switch (c.below(14)) {
        case 0:
            break;
        case 1:
            n.clear();
            break;
        case 2:
            n.resize(at());
            break;
        case 3:
            n.erase(0, 1 + at());
            break;
        case 4:
            n.erase(at(), 1);
            break;
        case 5:
            n.insert(at(), 1, n[at()]);
            break;
        case 6: {
            auto i = at();
            n[i]   = static_cast<char>(n[i] ^ 0x20);
            break;
        }
        case 7:
            n += c.word(2);
            break;
        case 8:
            n = c.word(2) + n;
            break;
        case 9:
            n += '\0';
            if (c.flip())
                n += c.word();
            break;
        case 10:
            n = c.flip() ? " " + n : n + " ";
            break;
        case 11:
            n = c.text();
            break;
        case 12: // two of them
            n += t[c.below(static_cast<std::uint32_t>(t.size()))].second;
            break;
        default: { // something else
            auto i = at();
            n[i]   = static_cast<char>(c.below(256));
        }
        }
        c.nontrivial(std::none_of(
            t.begin(), t.end(), [&](auto const& p) { return p.second == n; }));
        c.log("name '", n, "'");
        check_name<E>(c, n);
    }
}

// everything about one enumeration whose values can be enumerated
template <typename E>
void whole(Case& c)
{
    using u = std::underlying_type_t<E>;
    for (auto x = static_cast<long>(std::numeric_limits<u>::min());
         x <= static_cast<long>(std::numeric_limits<u>::max());
         ++x)
        check_value(c, static_cast<E>(x));
    auto seen = std::set<std::string>{};
    for (auto const& p : table<E>()) {
        check_name<E>(c, p.second);
        P_CHECK(seen.insert(lager::to_string(p.first)).second);
    }
}

template <template <typename> class F>
void any(Case& c)
{
    switch (c.below(9)) {
    case 0:
        return F<one::single>{}(c);
    case 1:
        return F<one::signs>{}(c);
    case 2:
        return F<two::inner::close>{}(c);
    case 3:
        return F<two::inner::plain_old>{}(c);
    case 4:
        return F<two::outer::nested>{}(c);
    case 5:
        return F<two::flags>{}(c);
    case 6:
        return F<two::aliased>{}(c);
    case 7:
        return F<two::wide>{}(c);
    default:
        return F<three::single>{}(c);
    }
}
template <typename E>
struct do_values
{
    void operator()(Case& c) const { values<E>(c); }
};
template <typename E>
struct do_names
{
    void operator()(Case& c) const { names<E>(c); }
};

} // namespace

PBT_TARGET(enum_values, 8, "a value that is not listed") { any<do_values>(c); }
PBT_TARGET(enum_names, 8, "a text that is not a name") { any<do_names>(c); }
PBT_TARGET(whole_enums, 1, "every case")
{
    c.nontrivial();
    // counted once: nothing in here is drawn but which one
    switch (c.below(4)) {
    case 0:
        return whole<one::signs>(c);
    case 1:
        return whole<two::inner::close>(c);
    case 2:
        return whole<two::wide>(c);
    default:
        return whole<three::single>(c);
    }
}
