// C29: two variants at once.
#pragma once

#include "c29.hpp"

namespace {

// -- several variants ---------------------------------------------------------

template <cat K1, cat K2, typename V1, typename V2>
void two(Case& c)
{
    auto w1 = static_cast<int>(c.below(3));
    auto w2 = static_cast<int>(c.below(3));
    auto v1 = make<V1>(w1, c.integer());
    auto v2 = make<V2>(w2, c.integer());
    auto h1 = alt_at<V1>(w1);
    auto h2 = alt_at<V2>(w2);
    auto ks = std::vector<call>{};
    auto id1 = std::visit([](auto& x) { return x.id; },
                          static_cast<lager::get_variant_t<V1&>&>(v1));
    auto id2 = std::visit([](auto& x) { return x.id; },
                          static_cast<lager::get_variant_t<V2&>&>(v2));
    auto want = call{"any",
                     {h1, h2},
                     {K1, K2},
                     {address(v1), address(v2)},
                     {id1, id2},
                     {false, false}};
    auto form = c.below(4);
    c.log("two variants ", name(K1), " ", name(K2), " holding ", w1, " and ", w2,
          " form ", form);
    c.nontrivial();
    traffic() = {};
    auto said = std::string{};
    auto any  = [&](auto&& x, auto&& y) {
        ks.push_back(observe("any", LAGER_FWD(x), LAGER_FWD(y)));
        return std::string{"any"};
    };
    switch (form) {
    case 0:
        said = lager::match(as<K1>(v1), as<K2>(v2))(any);
        break;
    case 1: // a special handler for one combination
        said = lager::match(as<K1>(v1), as<K2>(v2))(
            any, [&](const a0& x, const a1& y) {
                ks.push_back(observe("special", x, y));
                return std::string{"special"};
            });
        if (h1 == 0 && h2 == 1 && K1 == cat::clval && K2 == cat::clval)
            want.who = "special";
        break;
    case 2: // handlers that look at one of the two
        said = lager::match(as<K1>(v1), as<K2>(v2))(
            [&](const a1& x, const auto& y) {
                ks.push_back(observe("first", x, y));
                return std::string{"first"};
            },
            [&](const auto& x, const auto& y) {
                ks.push_back(observe("any", x, y));
                return std::string{"any"};
            });
        want.cats = {cat::clval, cat::clval};
        want.who  = h1 == 1 ? "first" : "any";
        break;
    default: { // taken by value
        said = lager::match(as<K1>(v1), as<K2>(v2))([&](auto x, auto y) {
            ks.push_back(observe("taken", x, y));
            return std::string{"taken"};
        });
        want.who  = "taken";
        want.cats = {cat::lval, cat::lval};
        P_CHECK(ks.size() == 1);
        want.where = ks[0].where;
        auto m1 = K1 == cat::rval, m2 = K2 == cat::rval;
        P_EQ(traffic().copies, long(!m1) + long(!m2));
        P_EQ(traffic().moves, long(m1) + long(m2));
        P_CHECK(is_moved(v1) == m1 && is_moved(v2) == m2);
        traffic() = {};
        break;
    }
    }
    CHECK_CALL(ks, want);
    P_EQ(said, want.who);
    P_EQ(traffic().copies, 0l);
    P_EQ(traffic().moves, 0l);
    if (form != 3)
        P_CHECK(!is_moved(v1) && !is_moved(v2));
}

template <typename V1, typename V2>
void two_any(Case& c)
{
#define TWO(k1, k2)                                                            \
    return two<cat::k1, cat::k2, V1, V2>(c)
    switch (c.below(9)) {
    case 0:
        TWO(lval, lval);
    case 1:
        TWO(clval, clval);
    case 2:
        TWO(rval, rval);
    case 3:
        TWO(lval, clval);
    case 4:
        TWO(clval, rval);
    case 5:
        TWO(rval, lval);
    case 6:
        TWO(clval, lval);
    case 7:
        TWO(rval, clval);
    default:
        TWO(lval, rval);
    }
}

} // namespace
