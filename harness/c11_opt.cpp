#include <cassert>
#include "c11.hpp"
using pbt::Case;
using namespace lt;

#define RULE "the part set differs from the part viewed"

using Var = std::variant<In, std::string, std::vector<In>>;

PBT_TARGET(alternatives, 3, RULE)
{
    switch (c.below(4)) {
    case 0:
        return check_partial(
            c, L::alternative<In>, ref_alternative<In, Var>());
    case 1:
        return check_partial(
            c, L::alternative<std::string>, ref_alternative<std::string, Var>());
    case 2:
        return check_partial(c,
                             L::alternative<std::vector<In>>,
                             ref_alternative<std::vector<In>, Var>());
    default:
        return check_partial(
            c,
            zug::comp(L::alternative<In>, L::with_opt(L::attr(&In::s))),
            then(ref_alternative<In, Var>(), ref_map_opt(member("s", &In::s))));
    }
}

PBT_TARGET(lifted, 4, RULE)
{
    auto s = member("s", &In::s);
    switch (c.below(6)) {
    case 0:
        return check_partial(
            c, L::map_opt(L::attr(&In::s)), ref_map_opt(s));
    case 1:
        return check_partial(
            c, L::with_opt(L::attr(&In::s)), ref_map_opt(s));
    case 2: {
        auto k = gen_index(c);
        return check_partial(c,
                             L::bind_opt(L::at(k)),
                             ref_bind_opt(ref_at<std::vector<In>>(k)));
    }
    case 3: {
        auto k = gen_key(c);
        return check_partial(c,
                             L::with_opt(L::at(k)),
                             ref_bind_opt(ref_at<std::map<int, In>>(k)));
    }
    case 4: {
        auto r = in_swapped();
        return check_partial(c,
                             L::map_opt(r),
                             ref_map_opt(ref<In, In>{
                                 "swapped",
                                 [=](const In& x) { return lager::view(r, x); },
                                 [=](const In& x, const In& v) {
                                     return lager::set(r, x, v);
                                 }}));
    }
    default:
        return check_partial(c, L::force_opt, ref_force_opt<In>());
    }
}

PBT_TARGET(defaults, 2, RULE)
{
    // these make an absent value present when set
    auto def = In{};
    gen(c, def);
    auto w = opt<In>{};
    auto v = In{};
    gen(c, w);
    gen(c, v);
    auto const w0 = w;
    c.log("whole ", str(w), " default ", str(def), " part ", str(v));
    c.nontrivial();
    auto check = [&](auto const& l, const In& d, const char* name) {
        In x = lager::view(l, w);
        same(c, x == (w0 ? *w0 : d), name, "view");
        In y = lager::view(l, opt<In>{w});
        same(c, y == (w0 ? *w0 : d), name, "view of an rvalue");
        opt<In> s = lager::set(l, w, v);
        same(c, s == opt<In>{v}, name, "set");
        opt<In> s2 = lager::set(l, opt<In>{w}, v);
        same(c, s2 == opt<In>{v}, name, "set in an rvalue");
        same(c, w == w0, name, "the whole passed as an lvalue changed");
        opt<In> o = lager::over(l, w, [](In z) {
            z.n ^= 1;
            return z;
        });
        auto e    = w0 ? *w0 : d;
        e.n ^= 1;
        same(c, o == opt<In>{e}, name, "over");
    };
    switch (c.below(3)) {
    case 0:
        return check(L::value_or(def), def, "value_or(x)");
    case 1:
        return check(L::value_or(), In{}, "value_or()");
    default:
        return check(L::or_default, In{}, "or_default");
    }
}
