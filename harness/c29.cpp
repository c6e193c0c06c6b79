// C29: matching variants calls exactly the handler of the held alternatives.
#include "c29.hpp"

namespace {

// -- one variant --------------------------------------------------------------

template <cat K, typename V>
void one(Case& c)
{
    auto which = static_cast<int>(c.below(3));
    auto id    = c.integer();
    auto v     = make<V>(which, id);
    auto held  = alt_at<V>(which);
    auto at    = address(v);
    auto form  = c.below(6);
    c.log("one variant, ", name(K), ", alternative ", which, ", form ", form);
    c.nontrivial(which != 0 || K != cat::lval);
    auto ks   = std::vector<call>{};
    auto want = call{"", {held}, {K}, {at}, {id}, {false}};
    traffic() = {};
    auto said = 0;
    switch (form) {
    case 0: // generic: everything
        want.who = "any";
        said     = lager::match(as<K>(v))([&](auto&& x) {
            ks.push_back(observe("any", LAGER_FWD(x)));
            return x.id ^ 5;
        });
        break;
    case 1: // by alternative: the exact type before its base, that before any
        want.who = held == 0 ? "a0" : held == 3 ? "base" : "any";
        said     = lager::match(as<K>(v))(
            [&](const a0& x) {
                // a sub arrives here as its base
                auto k = observe("a0", LAGER_FWD(x));
                k.who  = "a0";
                ks.push_back(k);
                return x.id ^ 5;
            },
            [&](auto&& x) {
                ks.push_back(observe("any", LAGER_FWD(x)));
                return x.id ^ 5;
            });
        // "any" is the better match unless the argument is exactly const a0&
        if (held == 0 && (K == cat::clval))
            want.who = "a0";
        else
            want.who = "any";
        break;
    case 2: // all the alternatives, in every category
        want.who = "f" + std::to_string(held) + name(K);
#define ONE_HANDLER(t, n)                                                      \
    [&](t& x) {                                                                \
        ks.push_back(observe(std::string{"f" #n} + name(cat::lval), x));       \
        return x.id ^ 5;                                                       \
    },                                                                         \
        [&](const t& x) {                                                      \
            ks.push_back(observe(std::string{"f" #n} + name(cat::clval), x));  \
            return x.id ^ 5;                                                   \
        },                                                                     \
        [&](t&& x) {                                                           \
            ks.push_back(observe(std::string{"f" #n} + name(cat::rval),        \
                                 std::move(x)));                               \
            return x.id ^ 5;                                                   \
        },                                                                     \
        [&](const t&& x) {                                                     \
            ks.push_back(observe(std::string{"f" #n} + name(cat::crval),       \
                                 std::move(x)));                               \
            return x.id ^ 5;                                                   \
        }
        said = lager::match(as<K>(v))(
            ONE_HANDLER(a0, 0), ONE_HANDLER(a1, 1), ONE_HANDLER(sub, 3));
        break;
    case 3: { // a base handler for two of the alternatives
        auto two = held == 1;
        want.who = two ? "a1" : "base";
        if (!two)
            want.alts = {0};
        want.cats = {cat::clval};
        said      = lager::match(as<K>(v))(
            [&](const a1& x) {
                ks.push_back(observe("a1", x));
                return x.id ^ 5;
            },
            [&](const a0& x) {
                ks.push_back(observe("base", x));
                return x.id ^ 5;
            });
        break;
    }
    case 4: { // by value: copied unless an rvalue was given
        want.who  = "taken";
        want.cats = {cat::lval};
        said      = lager::match(as<K>(v))([&](auto x) {
            ks.push_back(observe("taken", x));
            return x.id ^ 5;
        });
        if (ks.size() == 1)
            want.where = ks[0].where; // a value of its own
        P_CHECK(ks.size() == 1 && ks[0].where[0] != at);
        auto moves = K == cat::rval;
        P_EQ(traffic().copies, moves ? 0 : 1);
        P_EQ(traffic().moves, moves ? 1 : 0);
        P_CHECK(is_moved(v) == moves);
        traffic() = {};
        break;
    }
    default: { // an overload set made beforehand
        want.who = held == 1 ? "one" : "rest";
        auto vis = lager::visitor{
            [&](auto&& x) -> int {
                ks.push_back(observe("rest", LAGER_FWD(x)));
                return x.id ^ 5;
            },
            [&](a1& x) -> int {
                ks.push_back(observe("one", x));
                return x.id ^ 5;
            },
            [&](const a1& x) -> int {
                ks.push_back(observe("one", x));
                return x.id ^ 5;
            },
            [&](a1&& x) -> int {
                ks.push_back(observe("one", std::move(x)));
                return x.id ^ 5;
            },
            [&](const a1&& x) -> int {
                ks.push_back(observe("one", std::move(x)));
                return x.id ^ 5;
            }};
        said = lager::match(as<K>(v))(vis);
        break;
    }
    }
    CHECK_CALL(ks, want);
    P_EQ(said, id ^ 5);
    P_EQ(traffic().copies, 0l);
    P_EQ(traffic().moves, 0l);
    if (form != 4)
        P_CHECK(!is_moved(v));
    static_assert(lager::is_variant_v<V>);
    static_assert(lager::is_variant_v<const V&>);
}

template <typename V>
void one_any(Case& c)
{
    switch (c.below(4)) {
    case 0:
        return one<cat::lval, V>(c);
    case 1:
        return one<cat::clval, V>(c);
    case 2:
        return one<cat::rval, V>(c);
    default:
        return one<cat::crval, V>(c);
    }
}

} // namespace

PBT_TARGET(one_variant, 4, "an alternative or category other than the first")
{
    switch (c.below(4)) {
    case 0:
        return one_any<plain>(c);
    case 1:
        return one_any<derived>(c);
    case 2:
        return one_any<derived_twice>(c);
    default:
        return one_any<doubled>(c);
    }
}

// -- results ------------------------------------------------------------------

namespace {

template <typename V>
void results(Case& c)
{
    auto which = static_cast<int>(c.below(3));
    auto id    = c.small(100);
    auto v     = make<V>(which, id);
    c.nontrivial();
    // a reference to what is held, written through
    {
        decltype(auto) r =
            lager::match(v)([](auto& x) -> int& { return x.id; });
        static_assert(std::is_same_v<decltype(r), int&>);
        r = id + 1;
        P_EQ(std::visit([](auto& x) { return x.id; },
                        static_cast<lager::get_variant_t<V&>&>(v)),
             id + 1);
    }
    // the value moved out
    {
        auto before = std::visit([](auto& x) { return x.text; },
                                 static_cast<lager::get_variant_t<V&>&>(v));
        auto w      = v;
        auto s      = lager::match(std::move(w))(
            [](auto&& x) { return std::string{LAGER_FWD(x).text}; });
        P_EQ(s, before);
        decltype(auto) r = lager::match(std::move(v))(
            [](auto&& x) -> std::string&& { return LAGER_FWD(x).text; });
        static_assert(std::is_same_v<decltype(r), std::string&&>);
        P_EQ(r, before);
    }
    // nothing
    {
        auto n = 0;
        static_assert(std::is_void_v<decltype(lager::match(v)(
                          [&](auto const&) { ++n; }))>);
        lager::match(v)([&](auto const&) { ++n; });
        P_EQ(n, 1);
        lager::match(v, v)(lager::noop);
        lager::match(v)([&](const a1&) { n += 10; }, lager::noop);
        // noop takes the argument by the better conversion unless it is const
        P_CHECK(n == 1);
        lager::match(std::as_const(v))([&](const a1&) { n += 10; }, lager::noop);
        P_EQ(n, alt_at<V>(which) == 1 ? 11 : 1);
    }
    // something that can only be moved
    {
        auto p = lager::match(v)(
            [](const auto& x) { return std::make_unique<int>(x.id); });
        P_EQ(*p, id + 1);
        auto q = std::make_unique<int>(5);
        auto f = lager::match(v)(
            [q = std::move(q)](const auto& x) { return *q + x.id; });
        P_EQ(f, id + 6);
    }
    // an exception passes through
    {
        auto thrown = false;
        try {
            lager::match(v)([&](const auto& x) {
                if (x.id == id + 1)
                    throw std::runtime_error{"out"};
            });
        } catch (const std::runtime_error&) {
            thrown = true;
        }
        P_CHECK(thrown);
    }
    // kept for later, over what is held by then
    {
        auto w2 = static_cast<int>(c.below(3));
        auto m  = lager::match(v);
        v       = make<V>(w2, id + 2);
        auto at = std::pair<int, int>{};
        std::move(m)([&](const auto& x) {
            at = {alt_index<std::decay_t<decltype(x)>>(), x.id};
        });
        P_EQ(at.first, alt_at<V>(w2));
        P_EQ(at.second, id + 2);
    }
}

// a value whose construction fails leaves the variant without one
struct failing
{
    failing() = default;
    failing(const failing&) {}
    failing& operator=(const failing&) { return *this; }
    explicit failing(int) { throw std::runtime_error{"failed"}; }
    int id = 0;
};

struct may_be_void : std::variant<a0, failing>
{
    using std::variant<a0, failing>::variant;
};

template <typename V>
void valueless(Case& c)
{
    auto v = V{std::in_place_index<0>, c.small()};
    try {
        v.template emplace<1>(3);
    } catch (const std::runtime_error&) {
    }
    P_CHECK(v.valueless_by_exception());
    auto calls  = 0;
    auto thrown = 0;
    auto w      = plain{a1{3}};
    try {
        lager::match(v)([&](const auto&) { ++calls; });
    } catch (const std::bad_variant_access&) {
        ++thrown;
    }
    try {
        lager::match(w, v)([&](const auto&, const auto&) { ++calls; });
    } catch (const std::bad_variant_access&) {
        ++thrown;
    }
    try {
        lager::match(std::move(v))([&](auto&&) { ++calls; });
    } catch (const std::bad_variant_access&) {
        ++thrown;
    }
    P_EQ(calls, 0);
    P_EQ(thrown, 3);
}

// at compile time too
struct lit : std::variant<int, char, long>
{
    using std::variant<int, char, long>::variant;
};
template <typename V>
constexpr int at_compile_time(V v, V w)
{
    return lager::match(v, std::as_const(w))(
        [](int x, auto y) { return 1000 + x * 10 + static_cast<int>(y); },
        [](auto x, int y) { return 2000 + static_cast<int>(x) * 10 + y; },
        [](int x, int y) { return 3000 + x * 10 + y; },
        [](auto, auto) { return 4000; });
}
static_assert(at_compile_time<lit>(lit{1}, lit{2l}) == 1012);
static_assert(at_compile_time<lit>(lit{3l}, lit{4}) == 2034);
static_assert(at_compile_time<lit>(lit{3}, lit{4}) == 3034);
static_assert(at_compile_time<lit>(lit{'a'}, lit{4l}) == 4000);
static_assert(!lager::is_variant_v<int>);
static_assert(!lager::is_variant_v<std::optional<int>>);
static_assert(!lager::is_variant_v<std::tuple<int>>);
static_assert(lager::is_variant_v<const lit&>);
static_assert(
    std::is_same_v<lager::get_variant_t<lit>, std::variant<int, char, long>>);

} // namespace

PBT_TARGET(match_results, 2, "every case")
{
    switch (c.below(3)) {
    case 0:
        return results<plain>(c);
    case 1:
        return results<derived_twice>(c);
    default:
        return results<doubled>(c);
    }
}

PBT_TARGET(without_value, 1, "every case")
{
    c.nontrivial();
    if (c.flip())
        valueless<may_be_void>(c);
    else
        valueless<std::variant<a0, failing>>(c);
}

// -- overload sets and helpers ------------------------------------------------

namespace {

struct stateful
{
    int n = 0;
    std::string operator()(int) { return "int" + std::to_string(n++); }
    std::string operator()(const std::string&) { return "text"; }
};
struct pointers
{
    template <typename V>
    std::string operator()(V*) const
    {
        return "pointer";
    }
    std::string operator()(std::nullptr_t) { return "null"; }
};

} // namespace

PBT_TARGET(overload_sets, 1, "every case")
{
    c.nontrivial();
    auto n   = c.integer();
    auto vis = lager::visitor{
        stateful{},
        pointers{},
        [](const std::vector<int>&) { return std::string{"vector"}; },
        [n](int x, int y) { return std::to_string(static_cast<long>(n)) + ":" +
                                   std::to_string(x) + ":" +
                                   std::to_string(y); },
        []() { return std::string{"nothing"}; }};
    auto count = 0;
    for (auto i = 0; i < 8 && (i == 0 || c.more(4)); ++i) {
        auto x = c.integer(), y = c.integer();
        switch (c.below(7)) {
        case 0:
            P_EQ(vis(x), "int" + std::to_string(count++));
            break;
        case 1:
            P_EQ(vis(std::vector<int>{x}), "vector");
            break;
        case 2:
            P_EQ(vis(&x), "pointer");
            break;
        case 3:
            P_EQ(vis(nullptr), "null");
            break;
        case 4:
            P_EQ(vis(x, y),
                 std::to_string(static_cast<long>(n)) + ":" +
                     std::to_string(x) + ":" + std::to_string(y));
            break;
        case 5:
            P_EQ(vis(), "nothing");
            break;
        default:
            P_EQ(vis(std::string{"a"}), "text");
        }
    }
    auto copy = vis;
    P_EQ(copy(1), "int" + std::to_string(count));
    P_EQ(vis(1), "int" + std::to_string(count));
}

PBT_TARGET(helpers, 1, "every case")
{
    c.nontrivial();
    auto x    = a0{c.integer()};
    auto y    = a1{c.integer()};
    traffic() = {};
    // nothing is touched, whatever is given
    lager::noop();
    lager::noop(x);
    lager::noop(std::move(x), std::as_const(y), 3, nullptr);
    lager::noop(std::move(y));
    static_assert(std::is_void_v<decltype(lager::noop(x))>);
    P_CHECK(!x.moved && !y.moved);
    // the argument itself
    static_assert(std::is_same_v<decltype(lager::identity(x)), a0&>);
    static_assert(
        std::is_same_v<decltype(lager::identity(std::as_const(x))), const a0&>);
    static_assert(std::is_same_v<decltype(lager::identity(std::move(x))), a0&&>);
    P_CHECK(&lager::identity(x) == &x);
    P_CHECK(&lager::identity(std::as_const(x)) == &x);
    auto&& r = lager::identity(std::move(x));
    P_CHECK(&r == &x && !x.moved);
    P_EQ(traffic().copies, 0l);
    P_EQ(traffic().moves, 0l);
    auto z = lager::identity(std::move(x));
    P_CHECK(x.moved && z.id == x.id);
    P_EQ(traffic().moves, 1l);
    // forwarding as a variant keeps identity and category
    auto d = derived_twice{std::in_place_index<1>, 3};
    static_assert(std::is_same_v<decltype(lager::forward_variant<decltype(d)&>(d)), plain&>);
    static_assert(
        std::is_same_v<decltype(lager::forward_variant<const derived_twice&>(d)), const plain&>);
    static_assert(std::is_same_v<decltype(lager::forward_variant<derived_twice>(d)), plain&&>);
    P_CHECK(&lager::forward_variant<derived_twice&>(d) ==
            static_cast<plain*>(&d));
    P_CHECK(&lager::unwrap(d) == &d);
}
