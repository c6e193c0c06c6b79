#include "c12_brackets.hpp"

PBT_TARGET(by_lens, 3, RULE)
{
    auto k = static_cast<std::size_t>(c.small(4));
    c.log("index ", k);
    switch (c.below(7)) {
    case 0:
        return brackets<In>(
            c,
            "[erased lens]",
            [l = lager::lens<Mid, In>{L::attr(&Mid::a)}](auto&& x) {
                return LAGER_FWD(x)[l];
            },
            member("a", &Mid::a));
    case 1:
        return brackets<In>(
            c,
            "[at_or]",
            [=](auto&& x) { return LAGER_FWD(x)[L::at_or(k)]; },
            ref_at_or<VI>(k, In{}));
    case 2:
        return brackets<opt<std::string>>(
            c,
            "[alternative][s]",
            [](auto&& x) { return LAGER_FWD(x)[L::alternative<In>][&In::s]; },
            then(ref_alternative<In, V3>(), lift(member("s", &In::s))));
    case 3:
        return brackets<std::string>(
            c,
            "[element][s]",
            [](auto&& x) { return LAGER_FWD(x)[L::element<1>][&In::s]; },
            then(nth<1, std::tuple<int, In, std::string>>("element"),
                 member("s", &In::s)));
    case 4: {
        // handles optionals itself: not lifted
        auto r = ref<opt<In>, In>{
            "or_default",
            [](const opt<In>& o) { return o.value_or(In{}); },
            [](const opt<In>&, const In& p) { return opt<In>{p}; }};
        return brackets<In>(
            c,
            "optional [or_default]",
            [](auto&& x) { return LAGER_FWD(x)[L::or_default]; },
            r);
    }
    case 5:
        return brackets<opt<int>>(
            c,
            "optional [with_opt(n)]",
            [](auto&& x) { return LAGER_FWD(x)[L::with_opt(L::attr(&In::n))]; },
            lift(member("n", &In::n)));
    default:
        return brackets<opt<In>>(
            c,
            "optional [erased lens of optionals]",
            [l = lager::lens<opt<Mid>, opt<In>>{
                 L::map_opt(L::attr(&Mid::a))}](auto&& x) { return LAGER_FWD(x)[l]; },
            lift(member("a", &Mid::a)));
    }
}
