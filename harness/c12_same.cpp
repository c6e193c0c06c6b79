// C12: erased lenses next to the lenses they stand for, including those for
// which setting the viewed part is not redundant.
#include <cassert>
#include "c11.hpp"

#include <lager/cursor.hpp>
#include <lager/lens.hpp>
#include <lager/state.hpp>

using namespace lt;

namespace {

using MI = immer::map<int, In>;
using VI = std::vector<In>;
using V3 = std::variant<In, std::string, int>;

template <typename W, typename P, typename Plain>
void compare(Case& c, const char* name, Plain plain)
{
    auto erased = lager::lens<W, P>{plain};
    auto again  = lager::lens<W, P>{zug::comp(erased)};
    W w;
    P p;
    gen(c, w);
    gen(c, p);
    const P seen = lager::view(plain, w);
    const bool back = c.flip();
    if (back)
        p = seen;
    c.log(name, " in ", str(w), " set ", str(p));
    const W cw      = w;
    const P cp      = p;
    const W written = lager::set(plain, w, p);
    c.nontrivial(!(written == w));
    c.label("setting the viewed part is not redundant", back && !(written == w));
    auto judge = [&](const char* how, const lager::lens<W, P>& l) {
        P_EQ(lager::view(l, w), seen);
        P_EQ(lager::view(l, cw), seen);
        P_EQ(lager::view(l, W(w)), seen);
        W a = lager::set(l, w, p);
        P_CHECK(a == written,
                name << ", " << how << ": " << str(a) << " instead of "
                     << str(written));
        W b = lager::set(l, cw, cp);
        P_CHECK(b == written, name << ", constants, " << how << ": " << str(b));
        W d = lager::set(l, W(w), P(p));
        P_CHECK(d == written, name << ", temporaries, " << how << ": " << str(d));
        auto bump = [&](P) { return p; };
        W e       = lager::over(l, w, bump);
        P_CHECK(e == written, name << ", over, " << how << ": " << str(e));
        auto s             = lager::make_state(w, lager::automatic_tag{});
        lager::cursor<P> k = s[l];
        P_EQ(k.get(), seen);
        if (c.flip())
            k.set(p);
        else
            k.set(P(p));
        P_CHECK(s.get() == written,
                name << ", through a cursor, " << how << ": " << str(s.get()));
        P_EQ(k.get(), lager::view(plain, written));
    };
    judge("erased", erased);
    judge("erased twice", again);
    P_CHECK(w == cw, name << " changed the whole it was given");
}

} // namespace

PBT_TARGET(erased_same, 4, "setting the part changes the whole")
{
    switch (c.below(13)) {
    case 0:
        return compare<opt<int>, int>(c, "value_or", L::value_or(int(c.below(3))));
    case 1:
        return compare<opt<In>, In>(c, "or_default", L::or_default);
    case 2:
        return compare<opt<int>, int>(c, "or_default", L::or_default);
    case 3:
        return compare<opt<std::string>, std::string>(
            c, "value_or", L::value_or(std::string{"a"}));
    case 4: {
        auto k = gen_index(c);
        return compare<VI, In>(c, "at | or_default", zug::comp(L::at(k), L::or_default));
    }
    case 5: {
        auto k = gen_key(c);
        return compare<MI, In>(c, "at | or_default", zug::comp(L::at(k), L::or_default));
    }
    case 6: {
        auto k = gen_key(c);
        return compare<MI, In>(c, "at_or", L::at_or(k));
    }
    case 7:
        // loses a bit
        return compare<int, int>(c,
                              "half",
                              L::getset([](int x) { return x / 2; },
                                        [](int, int v) {
                                            return static_cast<int>(v * 2u);
                                        }));
    case 8:
        // counts writes
        return compare<In, std::string>(c,
                                     "versioned",
                                     L::getset([](const In& x) { return x.s; },
                                               [](In x, std::string v) {
                                                   x.s = v;
                                                   x.n = static_cast<int>(
                                                       static_cast<unsigned>(x.n) + 1u);
                                                   return x;
                                               }));
    case 9:
        return compare<In, opt<In>>(c, "force_opt", L::force_opt);
    case 10:
        return compare<V3, In>(c,
                            "alternative | or_default",
                            zug::comp(L::alternative<In>, L::or_default));
    case 11: {
        auto k = gen_index(c);
        return compare<VI, std::string>(
            c,
            "at | or_default | s",
            zug::comp(L::at(k), L::or_default, L::attr(&In::s)));
    }
    default:
        return compare<opt<Mid>, opt<int>>(
            c,
            "with_opt(a) | with_opt(n)",
            zug::comp(L::with_opt(L::attr(&Mid::a)), L::with_opt(L::attr(&In::n))));
    }
}
