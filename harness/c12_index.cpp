#include "c12_brackets.hpp"

PBT_TARGET(by_index, 3, RULE)
{
    auto i = static_cast<int>(gen_index(c));
    auto k = static_cast<std::size_t>(c.small(4));
    c.log("index ", i, " ", k);
    switch (c.below(6)) {
    case 0:
        return brackets<opt<In>>(
            c, "vector [i]", [=](auto&& x) { return LAGER_FWD(x)[i]; }, ref_at<VI>(i));
    case 1:
        return brackets<opt<std::string>>(
            c,
            "vector [i][s]",
            [=](auto&& x) { return LAGER_FWD(x)[k][&In::s]; },
            then(ref_at<VI>(k), lift(member("s", &In::s))));
    case 2:
        return brackets<opt<In>>(
            c,
            "persistent vector [i]",
            [=](auto&& x) { return LAGER_FWD(x)[k]; },
            ref_at<immer::vector<In>>(k));
    case 3:
        return brackets<opt<In>>(
            c,
            "optional vector [i]",
            [=](auto&& x) { return LAGER_FWD(x)[k]; },
            bind(ref_at<VI>(k)));
    case 4:
        return brackets<opt<In>>(
            c,
            "array [i]",
            [=](auto&& x) { return LAGER_FWD(x)[i]; },
            ref_at<std::array<In, 2>>(i));
    default:
        return brackets<opt<In>>(
            c,
            "vector of vectors [i][j]",
            [=](auto&& x) { return LAGER_FWD(x)[k][i]; },
            then(ref_at<immer::flex_vector<VI>>(k), bind(ref_at<VI>(i))));
    }
}
