#include "c12_brackets.hpp"

PBT_TARGET(by_member, 3, RULE)
{
    switch (c.below(5)) {
    case 0:
        return brackets<std::string>(
            c,
            "[s]",
            [](auto&& x) { return LAGER_FWD(x)[&In::s]; },
            member("s", &In::s));
    case 1:
        return brackets<int>(
            c,
            "[a][n]",
            [](auto&& x) { return LAGER_FWD(x)[&Mid::a][&In::n]; },
            then(member("a", &Mid::a), member("n", &In::n)));
    case 2:
        return brackets<opt<std::string>>(
            c,
            "optional [s]",
            [](auto&& x) { return LAGER_FWD(x)[&In::s]; },
            lift(member("s", &In::s)));
    case 3:
        return brackets<opt<int>>(
            c,
            "optional [a][n]",
            [](auto&& x) { return LAGER_FWD(x)[&Mid::a][&In::n]; },
            lift(then(member("a", &Mid::a), member("n", &In::n))));
    default:
        return brackets<int>(
            c,
            "[p][second]",
            [](auto&& x) {
                return LAGER_FWD(x)[&Mid::p][&std::pair<In, int>::second];
            },
            then(member("p", &Mid::p), nth<1, std::pair<In, int>>("second")));
    }
}

