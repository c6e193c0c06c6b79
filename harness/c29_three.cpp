// C29: three variants at once.
#include "c29.hpp"

namespace {

template <cat K1, cat K2, cat K3, typename V1, typename V2, typename V3>
void three(Case& c)
{
    auto w1 = static_cast<int>(c.below(3));
    auto w2 = static_cast<int>(c.below(3));
    auto w3 = static_cast<int>(c.below(3));
    auto v1 = make<V1>(w1, 1 + c.small(50));
    auto v2 = make<V2>(w2, 100 + c.small(50));
    auto v3 = make<V3>(w3, 200 + c.small(50));
    auto id = [](auto& v) {
        return std::visit([](auto& x) { return x.id; },
                          static_cast<lager::get_variant_t<decltype(v)>&>(v));
    };
    auto want =
        call{"any",
             {alt_at<V1>(w1), alt_at<V2>(w2), alt_at<V3>(w3)},
             {K1, K2, K3},
             {address(v1), address(v2), address(v3)},
             {id(v1), id(v2), id(v3)},
             {false, false, false}};
    c.log("three variants holding ", w1, " ", w2, " ", w3);
    c.nontrivial();
    auto ks   = std::vector<call>{};
    traffic() = {};
    auto special = c.flip();
    if (special) {
        lager::match(as<K1>(v1), as<K2>(v2), as<K3>(v3))(
            [&](const auto& x, const a0& y, const auto& z) {
                ks.push_back(observe("second", x, y, z));
            },
            [&](const a1& x, const a0& y, const a1& z) {
                ks.push_back(observe("101", x, y, z));
            },
            [&](const auto& x, const auto& y, const auto& z) {
                ks.push_back(observe("any", x, y, z));
            });
        want.cats = {cat::clval, cat::clval, cat::clval};
        if (want.alts == std::vector<int>{1, 0, 1})
            want.who = "101";
        else if (want.alts[1] == 0)
            want.who = "second";
    } else {
        lager::match(as<K1>(v1), as<K2>(v2), as<K3>(v3))(
            [&](auto&& x, auto&& y, auto&& z) {
                ks.push_back(observe(
                    "any", LAGER_FWD(x), LAGER_FWD(y), LAGER_FWD(z)));
            });
    }
    CHECK_CALL(ks, want);
    P_EQ(traffic().copies, 0l);
    P_EQ(traffic().moves, 0l);
    P_CHECK(!is_moved(v1) && !is_moved(v2) && !is_moved(v3));
}

} // namespace

PBT_TARGET(three_variants, 2, "every case")
{
    switch (c.below(4)) {
    case 0:
        return three<cat::lval, cat::clval, cat::rval, plain, derived, doubled>(
            c);
    case 1:
        return three<cat::rval, cat::lval, cat::clval, derived, derived, plain>(
            c);
    case 2:
        return three<cat::clval,
                     cat::rval,
                     cat::lval,
                     doubled,
                     plain,
                     derived_twice>(c);
    default:
        return three<cat::rval, cat::rval, cat::rval, plain, plain, plain>(c);
    }
}
