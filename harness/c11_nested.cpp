#include <cassert>
#include "c11.hpp"
using pbt::Case;
using namespace lt;

#define RULE "the part set differs from the part viewed"

PBT_TARGET(nested, 4, RULE)
{
    auto k = gen_index(c);
    auto j = gen_key(c);
    auto s = member("s", &In::s);
    c.log("keys ", k, " ", j);
    switch (c.below(6)) {
    case 0: {
        using W = std::vector<In>;
        return check_partial(
            c,
            zug::comp(L::at(k), L::with_opt(L::attr(&In::s))),
            then(ref_at<W>(k), ref_map_opt(s)));
    }
    case 1: {
        using W = std::map<int, std::vector<In>>;
        return check_partial(
            c,
            zug::comp(L::at(j),
                      L::bind_opt(L::at(k)),
                      L::map_opt(L::attr(&In::s))),
            then(then(ref_at<W>(j), ref_bind_opt(ref_at<std::vector<In>>(k))),
                 ref_map_opt(s)));
    }
    case 2: {
        using W = immer::map<int, immer::vector<In>>;
        return check_partial(
            c,
            zug::comp(L::at(j), L::with_opt(L::at(k))),
            then(ref_at<W>(j),
                 ref_bind_opt(ref_at<immer::vector<In>>(k))));
    }
    case 3: {
        using V = std::variant<In, std::string, std::vector<In>>;
        using W = std::vector<V>;
        return check_partial(
            c,
            zug::comp(L::at(k), L::with_opt(L::alternative<In>)),
            then(ref_at<W>(k), ref_bind_opt(ref_alternative<In, V>())));
    }
    case 4: {
        using W = immer::vector<std::map<int, std::string>>;
        return check_lens(
            c,
            zug::comp(L::at_or(k), L::at_or(j)),
            then(ref_at_or<W>(k, std::map<int, std::string>{}),
                 ref_at_or<std::map<int, std::string>>(j, std::string{})),
            false);
    }
    default: {
        using V = std::variant<In, std::string, std::vector<In>>;
        return check_partial(
            c,
            zug::comp(L::alternative<std::vector<In>>,
                      L::bind_opt(L::at(k)),
                      L::with_opt(L::attr(&In::n))),
            then(then(ref_alternative<std::vector<In>, V>(),
                      ref_bind_opt(ref_at<std::vector<In>>(k))),
                 ref_map_opt(member("n", &In::n))));
    }
    }
}

PBT_TARGET(zipped, 3, RULE)
{
    auto k = gen_index(c);
    switch (c.below(3)) {
    case 0: {
        using W = std::pair<In, int>;
        using P = std::pair<opt<In>, int>;
        return check_lens(c,
                          L::zip(L::force_opt, lager::identity),
                          ref<W, P>{"zip(force_opt,identity)",
                                    [](const W& w) {
                                        return P{w.first, w.second};
                                    },
                                    [](const W& w, const P& p) {
                                        return W{p.first ? *p.first : w.first,
                                                 p.second};
                                    }},
                          false);
    }
    case 1: {
        using V = std::variant<In, std::string, std::vector<In>>;
        using W = std::tuple<V, std::vector<In>>;
        using P = std::tuple<opt<In>, opt<In>>;
        auto a  = ref_alternative<In, V>();
        auto b  = ref_at<std::vector<In>>(k);
        return check_lens(c,
                          L::zip(L::alternative<In>, L::at(k)),
                          ref<W, P>{"zip(alternative,at)",
                                    [=](const W& w) {
                                        return P{a.get(std::get<0>(w)),
                                                 b.get(std::get<1>(w))};
                                    },
                                    [=](const W& w, const P& p) {
                                        return W{a.put(std::get<0>(w),
                                                       std::get<0>(p)),
                                                 b.put(std::get<1>(w),
                                                       std::get<1>(p))};
                                    }},
                          false);
    }
    default: {
        using P = std::tuple<opt<In>, In>;
        return check_lens(
            c,
            L::fan(zug::comp(L::attr(&Mid::a), L::force_opt),
                   zug::comp(L::attr(&Mid::p), L::first)),
            ref<Mid, P>{"fan(a|force_opt,p|first)",
                        [](const Mid& w) {
                            return P{w.a, w.p.first};
                        },
                        [](const Mid& w, const P& p) {
                            auto r = w;
                            if (std::get<0>(p))
                                r.a = *std::get<0>(p);
                            r.p.first = std::get<1>(p);
                            return r;
                        }},
            false);
    }
    }
}
