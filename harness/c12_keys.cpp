#include "c12_brackets.hpp"

PBT_TARGET(by_key, 3, RULE)
{
    auto k = gen_key(c);
    auto s = std::string(1, static_cast<char>('a' + c.small(4)));
    c.log("key ", k, " ", s);
    using SM = std::unordered_map<std::string, std::string>;
    switch (c.below(6)) {
    case 0:
        return brackets<opt<In>>(
            c,
            "map [k]",
            [=](auto&& x) { return LAGER_FWD(x)[k]; },
            ref_at<std::map<int, In>>(k));
    case 1:
        return brackets<opt<int>>(
            c,
            "persistent map [k][n]",
            [=](auto&& x) { return LAGER_FWD(x)[k][&In::n]; },
            then(ref_at<immer::map<int, In>>(k), lift(member("n", &In::n))));
    case 2:
        return brackets<opt<std::string>>(
            c, "map [string]", [=](auto&& x) { return LAGER_FWD(x)[s]; }, ref_at<SM>(s));
    case 3:
        return brackets<opt<std::string>>(
            c,
            "map [literal]",
            [=](auto&& x) { return LAGER_FWD(x)["b"]; },
            ref_at<SM>(std::string{"b"}));
    case 4:
        return brackets<opt<In>>(
            c,
            "optional map [k]",
            [=](auto&& x) { return LAGER_FWD(x)[k]; },
            bind(ref_at<immer::map<int, In>>(k)));
    default:
        return brackets<opt<std::string>>(
            c,
            "optional map [string]",
            [=](auto&& x) { return LAGER_FWD(x)[s]; },
            bind(ref_at<SM>(s)));
    }
}
