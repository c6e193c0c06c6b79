#include <cassert>
#include "c10.hpp"
using pbt::Case;

// longer chains, nested either way
template <typename A, typename B, typename C, typename D>
static void chain(Case& c, A a, B b, C m, D d)
{
    auto r = lt::then(lt::then(a.r, b.r), lt::then(m.r, d.r));
    switch (c.below(3)) {
    case 0:
        return lt::check_lens(c, zug::comp(a.l, b.l, m.l, d.l), r);
    case 1:
        return lt::check_lens(
            c, zug::comp(zug::comp(a.l, b.l), zug::comp(m.l, d.l)), r);
    default:
        return lt::check_lens(
            c, zug::comp(a.l, zug::comp(b.l, zug::comp(m.l, d.l))), r);
    }
}

PBT_TARGET(long_chains, 3, "the part set differs from the part viewed")
{
    using namespace lt;
    auto out = lenses_of(type<Out>{});
    auto mid = lenses_of(type<Mid>{});
    auto tup = lenses_of(type<std::tuple<int, In, std::string>>{});
    auto pr  = lenses_of(type<std::pair<In, int>>{});
    auto in  = lenses_of(type<In>{});
    auto ms  = lenses_of(type<std::tuple<Mid, std::string>>{});
    auto fan = lenses_of(type<std::tuple<In, std::pair<In, int>, In>>{});
    switch (c.below(4)) {
    case 0:
        return chain(
            c, std::get<0>(out), std::get<2>(mid), std::get<1>(tup), std::get<4>(in));
    case 1:
        return chain(
            c, std::get<1>(out), std::get<1>(mid), std::get<0>(pr), std::get<1>(in));
    case 2:
        return chain(
            c, std::get<3>(out), std::get<0>(ms), std::get<0>(mid), std::get<2>(in));
    default:
        return chain(
            c, std::get<1>(out), std::get<3>(mid), std::get<0>(fan), std::get<3>(pr));
    }
}
