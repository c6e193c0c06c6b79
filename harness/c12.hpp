// C12: erased lenses, composed at run time.
#pragma once
#include <cassert>
#include "c11.hpp"

#include <lager/lens.hpp>

using namespace lt;

namespace {

template <typename W, typename P>
using item = entry<lager::lens<W, P>, ref<W, P>>;

using PI = std::pair<In, int>;
using VI = std::vector<In>;
using MI = immer::map<int, In>;
using V3 = std::variant<In, std::string, int>;

// handles for an erased lens, so that nothing keeps the first object
template <typename W, typename P>
lager::lens<W, P> shuffle(Case& c, lager::lens<W, P> l)
{
    switch (c.below(5)) {
    case 0:
        return l;
    case 1: {
        auto m = lager::lens<W, P>{l};
        return m;
    }
    case 2: {
        auto m = std::make_unique<lager::lens<W, P>>(std::move(l));
        auto n = *m;
        m.reset();
        return n;
    }
    case 3: {
        auto m = l;
        auto n = std::move(m);
        m      = n; // over a moved-from object
        return m;
    }
    default:
        // a lens that is itself erased
        return lager::lens<W, P>{zug::comp(l)};
    }
}

template <typename W, typename P>
item<W, P> base(Case& c);
template <typename W, typename P>
item<W, P> make(Case& c, int depth);

template <typename W, typename P, typename L>
item<W, P> it(Case& c, L l, ref<W, P> r)
{
    return {shuffle(c, lager::lens<W, P>{std::move(l)}), std::move(r)};
}

template <typename W, typename M, typename P>
item<W, P> via(Case& c, int d)
{
    auto a = make<W, M>(c, d - 1);
    auto b = make<M, P>(c, d - 1);
    auto r = then(a.r, b.r);
    if (c.flip())
        return it<W, P>(c, zug::comp(a.l, b.l), r);
    return it<W, P>(c, zug::comp(a.l) | b.l, r);
}

#define BASE(W, P, L, R)                                                       \
    template <>                                                                \
    item<W, P> base<W, P>(Case & c)                                            \
    {                                                                          \
        return it<W, P>(c, L, R);                                              \
    }
#define COMMA ,
BASE(In, int, L::attr(&In::n), member("n", &In::n))
BASE(In, std::string, L::attr(&In::s), member("s", &In::s))
BASE(In, In, in_swapped(), (ref<In COMMA In>{
    "swapped",
    [](const In& x) { return In{~x.n, std::string(x.s.rbegin(), x.s.rend())}; },
    [](const In&, const In& v) {
        return In{~v.n, std::string(v.s.rbegin(), v.s.rend())};
    }}))
BASE(PI, In, L::first, (nth<0 COMMA PI>("first")))
BASE(PI, int, L::second, (nth<1 COMMA PI>("second")))
BASE(PI, PI, lager::identity, (ref<PI COMMA PI>{
    "identity", [](auto& x) { return x; }, [](auto&, auto& v) { return v; }}))
BASE(Mid, In, L::attr(&Mid::a), member("a", &Mid::a))
BASE(Mid, PI, L::attr(&Mid::p), member("p", &Mid::p))
BASE(int, int, L::getset([](int x) { return ~x; }, [](int, int v) { return ~v; }),
     (ref<int COMMA int>{"not", [](int x) { return ~x; }, [](int, int v) { return ~v; }}))
BASE(std::string, std::string, lager::identity, (ref<std::string COMMA std::string>{
    "identity", [](auto& x) { return x; }, [](auto&, auto& v) { return v; }}))
template <>
item<VI, opt<In>> base<VI, opt<In>>(Case& c)
{
    auto k = gen_index(c);
    return it<VI, opt<In>>(c, L::at(k), ref_at<VI>(k));
}
template <>
item<MI, opt<In>> base<MI, opt<In>>(Case& c)
{
    auto k = gen_key(c);
    return it<MI, opt<In>>(c, L::at(k), ref_at<MI>(k));
}
template <>
item<V3, opt<In>> base<V3, opt<In>>(Case& c)
{
    return it<V3, opt<In>>(c, L::alternative<In>, ref_alternative<In, V3>());
}

template <typename W, typename P>
item<W, P> make(Case& c, int d)
{
    auto k = d > 0 ? c.below(4) : 0;
    if (k == 1)
        return via<W, W, P>(c, d);
    if (k == 2)
        return via<W, P, P>(c, d);
    if constexpr (std::is_same_v<W, PI> && std::is_same_v<P, int>) {
        if (k == 3)
            return via<PI, In, int>(c, d);
    }
    if constexpr (std::is_same_v<W, Mid> && std::is_same_v<P, In>) {
        if (k == 3)
            return via<Mid, PI, In>(c, d);
    }
    if constexpr (std::is_same_v<W, Mid> && (std::is_same_v<P, int> ||
                                             std::is_same_v<P, std::string>)) {
        return via<Mid, In, P>(c, d);
    } else if constexpr (std::is_same_v<W, PI> &&
                         std::is_same_v<P, std::string>) {
        return via<PI, In, P>(c, d);
    } else if constexpr (std::is_same_v<W, Mid> && std::is_same_v<P, Mid>) {
        return it<Mid, Mid>(c,
                            lager::identity,
                            ref<Mid, Mid>{"identity",
                                          [](auto& x) { return x; },
                                          [](auto&, auto& v) { return v; }});
    } else {
        return base<W, P>(c);
    }
}

template <typename W, typename P>
void total(Case& c)
{
    auto i = make<W, P>(c, static_cast<int>(c.below(5)));
    c.label("composed 3 or more", std::count(i.r.name.begin(), i.r.name.end(), '|') >= 2);
    check_lens(c, i.l, i.r);
}

// through a part that may be absent, then lifted erased lenses
template <typename W, typename P>
void partial(Case& c)
{
    auto a = base<W, opt<In>>(c);
    auto b = make<In, P>(c, static_cast<int>(c.below(3)));
    auto r = then(a.r, ref_map_opt(b.r));
    switch (c.below(3)) {
    case 0:
        return check_partial(c, zug::comp(a.l, L::map_opt(b.l)), r);
    case 1:
        return check_partial(c,
                             lager::lens<W, opt<P>>{
                                 zug::comp(a.l, L::with_opt(b.l))},
                             r);
    default: {
        auto m = lager::lens<opt<In>, opt<P>>{L::with_opt(b.l)};
        return check_partial(c, shuffle(c, m) , ref_map_opt(b.r));
    }
    }
}

} // namespace

