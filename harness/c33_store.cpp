// C33: stores, effects, futures and dependencies made from what the caller
// keeps
#include "c33.hpp"

#include <lager/commit.hpp>
#include <lager/context.hpp>
#include <lager/deps.hpp>
#include <lager/effect.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/future.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/variant.hpp>
#include <lager/store.hpp>
#include <lager/util.hpp>
#include <lager/watch.hpp>

#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

using pbt::Case;
using namespace keep;

namespace {

struct act
{
    val by;
};
struct narrow
{
    val by;
};

struct service
{
    int calls = 0;
};
struct setting
{
    val v{7, 8};
};
struct another
{
    val v{9, 9};
};

using deps_t = lager::deps<service&, setting>;
using eff_t  = lager::effect<act, deps_t>;
using ctx_t  = lager::context<act, deps_t>;
using res_t  = lager::result<val, act, deps_t>;

// what the user keeps
struct kit
{
    int effects = 0, posted = 0, handled = 0, others = 0, continued = 0;
    service svc;
    setting cfg;
    val m{1, 2};
    act a{val{10, 20}};
    narrow n{val{10, 20}};
    std::variant<val, int> v{val{3, 4}};
    std::vector<val> vec{val{1, 1}, val{2, 2}};
    std::map<std::string, val> dict{{"k", val{5, 6}}};
    std::string key = "k";
    std::tuple<val, int> tup{val{1, 2}, 3};

    static val sum(val m, const act& a)
    {
        m.a += a.by.a;
        m.b += a.by.b;
        return m;
    }

    static constexpr auto red_  = [](val m, act a) { return sum(m, a); };
    static constexpr auto conv_ = [](narrow n) { return act{n.by}; };
    static constexpr auto fa    = [](const val& x) { return x.a; };
    static constexpr auto sa    = [](val x, int a) {
        x.a = a;
        return x;
    };
    static constexpr auto inc = [](int x) { return x + 1; };

    kept<std::decay_t<decltype(red_)>> f_red{"the reducer", red_};
    kept<std::decay_t<decltype(conv_)>> f_conv{"the converter", conv_};
    kept<std::function<void(const ctx_t&)>> f_eff{
        "the effect", [this](const ctx_t& ctx) {
            ++effects;
            ++lager::get<service>(ctx).calls;
        }};
    kept<std::function<lager::future(const ctx_t&)>> f_eff_f{
        "the effect with a future", [this](const ctx_t&) -> lager::future {
            ++effects;
            return {};
        }};
    kept<std::function<void()>> f_post{"the posted function",
                                       [this] { ++posted; }};
    kept<std::function<void()>> f_then{"the continuation",
                                       [this] { ++continued; }};
    // handlers, for one type each
    struct on_val : kept<std::function<int(const val&)>>
    {
        using base_t = kept<std::function<int(const val&)>>;
        using base_t::base_t;
        int operator()(const val& x) const
        {
            return base_t::operator()(x);
        }
    };
    struct on_int : kept<std::function<int(const int&)>>
    {
        using base_t = kept<std::function<int(const int&)>>;
        using base_t::base_t;
        int operator()(int x) const { return base_t::operator()(x); }
    };
    on_val h_val{"the handler", [this](const val& x) {
                     ++handled;
                     return x.a;
                 }};
    on_int h_int{"the other handler", [this](int x) {
                     ++others;
                     return x;
                 }};
    kept<std::decay_t<decltype(fa)>> f_get{"the getter", fa};
    kept<std::decay_t<decltype(sa)>> f_set{"the setter", sa};
    kept<std::decay_t<decltype(inc)>> f_inc{"the increment", inc};

    eff_t eff{std::as_const(f_eff)};
    eff_t eff_f{std::as_const(f_eff_f)};
    eff_t seq{lager::sequence(eff, eff_f)};
    std::function<res_t(val, act)> red2_fn = [this](val m, act a) -> res_t {
        return {sum(m, a), eff};
    };
    kept<std::function<res_t(val, act)>> f_red2{"the reducer with effects",
                                                red2_fn};

    deps_t deps = lager::make_deps(std::ref(svc), std::as_const(cfg));

    decltype(lager::lenses::getset(std::as_const(f_get),
                                   std::as_const(f_set))) l_a =
        lager::lenses::getset(std::as_const(f_get), std::as_const(f_set));

    void intact(Case& c)
    {
        auto ok = [&](auto& f) {
            if (f.gone)
                c.fail(std::string{f.name} + " was moved away");
        };
        ok(f_red);
        ok(f_conv);
        ok(f_eff);
        ok(f_eff_f);
        ok(f_post);
        ok(f_then);
        ok(h_val);
        ok(h_int);
        ok(f_get);
        ok(f_set);
        ok(f_inc);
        ok(f_red2);
        P_CHECK(m == val(1, 2), "the model was moved away");
        P_CHECK(a.by == val(10, 20), "the action was moved away");
        P_CHECK(n.by == val(10, 20), "the narrow action was moved away");
        P_CHECK(cfg.v == val(7, 8), "the setting was moved away");
        P_CHECK(lager::get<setting>(deps).v == val(7, 8),
                "the setting of the dependencies was moved away");
        P_CHECK(&lager::get<service>(deps) == &svc);
        P_CHECK(v == (std::variant<val, int>{val{3, 4}}),
                "the variant was moved away");
        P_CHECK(vec.size() == 2 && vec[0] == val(1, 1) && vec[1] == val(2, 2),
                "the vector was moved away");
        P_CHECK(dict.size() == 1 && dict.at("k") == val(5, 6),
                "the map was moved away");
        P_EQ(key, std::string{"k"});
        P_CHECK(std::get<0>(tup) == val(1, 2), "the tuple was moved away");
        P_CHECK(static_cast<bool>(eff) && static_cast<bool>(eff_f) &&
                    static_cast<bool>(seq),
                "an effect was moved away");
    }
};

// `fn` with something lent, twice: it is the same again
template <typename T, typename Fn>
void twice(bool cst, T& x, Fn&& fn)
{
    lend(cst, x, fn);
    lend(!cst, x, fn);
}

// an event loop of the user's own
struct own_loop
{
    std::shared_ptr<std::vector<std::function<void()>>> q =
        std::make_shared<std::vector<std::function<void()>>>();
    bool gone = false;

    own_loop() = default;
    own_loop(const own_loop&) = default;
    own_loop(own_loop&& o)
        : q{o.q}
        , gone{std::exchange(o.gone, true)}
    {}
    void post(std::function<void()> f)
    {
        if (gone)
            throw used_after_move{"the loop was used after it was moved away"};
        q->push_back(std::move(f));
    }
    void async(std::function<void()> f) { post(std::move(f)); }
    void finish() {}
    void pause() {}
    void resume() {}
    void run()
    {
        while (!q->empty()) {
            auto f = q->front();
            q->erase(q->begin());
            f();
        }
    }
};

constexpr auto kinds = 22;

} // namespace

PBT_TARGET(kept_by_stores, 4, "something was used for several stores or effects")
{
    auto k_ = std::make_unique<kit>();
    auto& k = *k_;

    // a store in use
    auto check_plain = [&](auto& store, auto&& step, bool cst, int n) {
        auto want = k.m;
        P_CHECK(store.get() == want, "shows " << show(store.get()));
        for (int i = 0; i < n; ++i) {
            lend(cst, k.a, [&](auto& a) { return store.dispatch(a); });
            step();
            want = kit::sum(want, k.a);
            P_CHECK(store.get() == want,
                    "shows " << show(store.get()) << " instead of "
                             << show(want));
        }
    };

    auto apply = [&](int kind, bool cst, int n) {
        switch (kind) {
        case 0: {
            auto loop = lager::with_manual_event_loop{};
            lend(cst, k.f_red, [&](auto& r) {
                auto enh = lager::with_reducer(r);
                twice(cst, enh, [&](auto& e) {
                    auto store = lend(cst, k.m, [&](auto& m) {
                        return lager::make_store<act>(m, loop, e);
                    });
                    check_plain(store, [] {}, cst, n);
                    return 0;
                });
                return 0;
            });
            break;
        }
        case 1: {
            auto q    = lager::queue_event_loop{};
            auto loop = lager::with_queue_event_loop{q};
            auto enh  = lager::with_reducer(k.f_red2);
            auto with = lager::with_deps(std::ref(k.svc), k.cfg);
            auto was = k.effects;
            twice(cst, enh, [&](auto& e) {
                return lend(cst, with, [&](auto& w) {
                    auto store = lend(cst, k.m, [&](auto& m) {
                        return lager::make_store<act>(m, loop, e, w);
                    });
                    check_plain(store, [&] { q.step(); }, cst, n);
                    P_CHECK(lager::get<setting>(store).v == val(7, 8));
                    P_CHECK(&lager::get<service>(store) == &k.svc);
                    return 0;
                });
            });
            P_EQ(k.effects, was + 2 * n, "effects run");
            break;
        }
        case 2: {
            // futures, and a function chained to each of them
            auto q    = lager::safe_queue_event_loop{};
            auto loop = lager::with_safe_queue_event_loop{q};
            auto enh  = lager::with_reducer(k.f_red);
            auto fut  = lager::with_futures;
            auto was  = k.continued;
            q.adopt();
            twice(cst, fut, [&](auto& f) {
                auto store = lend(cst, k.m, [&](auto& m) {
                    return lager::make_store<act>(m, loop, f, enh);
                });
                for (int i = 0; i < n; ++i)
                    lend(cst, k.a, [&](auto& a) {
                        return lend(cst, k.f_then, [&](auto& g) {
                            store.dispatch(a).then(g).then(g);
                            return 0;
                        });
                    });
                for (int i = 0; i < 6; ++i)
                    q.step();
                return 0;
            });
            P_EQ(k.continued, was + 4 * n, "continuations run");
            break;
        }
        case 3: {
            // work posted to every loop
            auto was = k.posted;
            auto q   = lager::queue_event_loop{};
            auto sq  = lager::safe_queue_event_loop{};
            auto wq  = lager::with_queue_event_loop{q};
            auto wsq = lager::with_safe_queue_event_loop{sq};
            auto mn  = lager::with_manual_event_loop{};
            sq.adopt();
            for (int i = 0; i < n; ++i)
                lend(cst, k.f_post, [&](auto& f) {
                    q.post(f);
                    sq.post(f);
                    wq.post(f);
                    wsq.post(f);
                    mn.post(f);
                    return 0;
                });
            for (int i = 0; i < 3; ++i)
                q.step(), sq.step();
            P_EQ(k.posted, was + 5 * n, "functions run");
            break;
        }
        case 4: {
            auto e = lend(cst, k.f_eff, [&](auto& f) { return eff_t{f}; });
            auto g = lend(cst, k.f_eff_f, [&](auto& f) { return eff_t{f}; });
            auto s = lend(cst, e, [&](auto& e) {
                return lend(cst, g, [&](auto& g) {
                    return lager::sequence(e, g, e);
                });
            });
            auto store = lager::make_store<act>(
                k.m, lager::with_manual_event_loop{},
                lager::with_reducer(k.f_red),
                lager::with_deps(std::ref(k.svc), k.cfg));
            auto ctx = ctx_t{store};
            auto was = k.effects;
            for (int i = 0; i < n; ++i) {
                s(ctx);
                k.seq(ctx);
                e(ctx);
            }
            P_EQ(k.effects, was + 6 * n, "effects run");
            break;
        }
        case 5: {
            // results
            auto was = k.effects;
            auto r   = lend(cst, k.m, [&](auto& m) {
                return lend(cst, k.eff, [&](auto& e) { return res_t{m, e}; });
            });
            P_CHECK(r.first == k.m);
            auto wide = lend(cst, r, [&](auto& r) {
                return lager::result<val, act, deps_t>{r};
            });
            P_CHECK(wide.first == k.m && r.first == k.m, "the result");
            auto pair = lend(cst, k.m, [&](auto& m) { return res_t{m}; });
            P_CHECK(pair.first == k.m);
            auto store = lager::make_store<act>(
                k.m, lager::with_manual_event_loop{},
                lager::with_reducer(k.f_red),
                lager::with_deps(std::ref(k.svc), k.cfg));
            auto ctx = ctx_t{store};
            r.second(ctx);
            wide.second(ctx);
            P_EQ(k.effects, was + 2, "effects run");
            break;
        }
        case 6: {
            auto d = lend(cst, k.cfg, [&](auto& cfg) {
                return lager::make_deps(std::ref(k.svc), cfg);
            });
            P_CHECK(lager::get<setting>(d).v == val(7, 8));
            auto one = lend(cst, k.cfg, [&](auto& cfg) { return lager::make_deps(cfg); });
            auto two = lager::make_deps(std::ref(k.svc));
            auto all = lend(cst, one, [&](auto& one) {
                return two.merge(one);
            });
            P_CHECK(lager::get<setting>(all).v == val(7, 8));
            P_CHECK(&lager::get<service>(all) == &k.svc);
            P_CHECK(lager::get<setting>(one).v == val(7, 8), "merged from");
            auto less = lend(cst, d, [&](auto& d) { return lager::deps<setting>{d}; });
            P_CHECK(lager::get<setting>(less).v == val(7, 8));
            P_CHECK(lager::get<setting>(d).v == val(7, 8), "converted from");
            auto mine = lend(cst, k.deps, [&](auto& d) { return lager::deps<setting>{d}; });
            P_CHECK(lager::get<setting>(mine).v == val(7, 8));
            break;
        }
        case 7: {
            auto was = k.handled;
            for (int i = 0; i < n; ++i)
                lend(cst, k.v, [&](auto& v) {
                    return lend(cst, k.h_val, [&](auto& f) {
                        return lend(cst, k.h_int, [&](auto& g) {
                            P_EQ(lager::match(v)(f, g), 3);
                            auto vis = lager::visitor{f, g};
                            P_EQ(std::visit(vis, v), 3);
                            P_EQ(vis(4), 4);
                            return 0;
                        });
                    });
                });
            P_EQ(k.handled, was + 2 * n, "handlers called");
            break;
        }
        case 8: {
            // contexts made of contexts
            auto store = lager::make_store<act>(
                k.m, lager::with_manual_event_loop{},
                lager::with_reducer(k.f_red),
                lager::with_deps(std::ref(k.svc), k.cfg));
            auto ctx  = lend(cst, store, [](auto& s) { return ctx_t{s}; });
            auto want = k.m;
            for (int i = 0; i < n; ++i) {
                auto sub = lend(cst, ctx, [&](auto& x) {
                    return lend(cst, k.f_conv, [&](auto& f) {
                        return lager::context<narrow>{x, f};
                    });
                });
                auto sub2 = lend(cst, sub, [&](auto& x) {
                    return lager::context<lager::actions<narrow>>{x};
                });
                lend(cst, k.n, [&](auto& a) {
                    sub.dispatch(a);
                    sub2.dispatch(a);
                    return 0;
                });
                lend(cst, k.a, [&](auto& a) { return ctx.dispatch(a); });
                for (int j = 0; j < 3; ++j)
                    want = kit::sum(want, k.a);
                P_CHECK(store.get() == want, "shows " << show(store.get()));
            }
            P_CHECK(lager::get<setting>(ctx).v == val(7, 8));
            break;
        }
        case 9: {
            // promises and futures
            auto q      = std::vector<std::function<void()>>{};
            auto poster = kept{"the poster", std::function<void(std::function<void()>)>{
                                                 [&](auto f) { q.push_back(f); }}};
            auto was = k.continued;
            for (int i = 0; i < n; ++i) {
                auto [p, f] = lend(cst, poster, [&](auto& post) {
                    return lager::promise::with_post(post);
                });
                lend(cst, k.f_then, [&](auto& g) {
                    std::move(f).then(g).then(g);
                    return 0;
                });
                p();
            }
            P_CHECK(!poster.gone, "the poster was moved away");
            while (!q.empty()) {
                auto f = q.front();
                q.erase(q.begin());
                f();
            }
            P_EQ(k.continued, was + 2 * n, "continuations run");
            break;
        }
        case 10: {
            // thunks, a reducer below them, and what is dispatched
            auto enh  = lager::with_reducer(std::as_const(k.f_red));
            auto thk  = lager::with_thunk();
            auto loop = lager::with_manual_event_loop{};
            auto was  = k.others;
            twice(cst, thk, [&](auto& t) {
                auto store = lager::make_store<act>(k.m, loop, enh, t);
                using eff0 = lager::effect<act, lager::deps<>>;
                auto thunk = eff0{[&](auto&& ctx) {
                    ++k.others;
                    lend(cst, k.a, [&](auto& a) { return ctx.dispatch(a); });
                }};
                auto want = k.m;
                for (int i = 0; i < n; ++i) {
                    lend(cst, thunk, [&](auto& t) { return store.dispatch(t); });
                    want = kit::sum(want, k.a);
                    P_CHECK(store.get() == want, "shows " << show(store.get()));
                }
                return 0;
            });
            P_EQ(k.others, was + 2 * n, "thunks run");
            break;
        }
        case 11: {
            // what lenses are given
            for (int i = 0; i < n; ++i) {
                lend(cst, k.m, [&](auto& m) {
                    return lend(cst, k.l_a, [&](auto& l) {
                        P_EQ(lager::view(l, m), 1);
                        P_CHECK(lager::set(l, m, 5) == val(5, 2));
                        return lend(cst, k.f_inc, [&](auto& f) {
                            P_CHECK(lager::over(l, m, f) == val(2, 2));
                            return 0;
                        });
                    });
                });
                lend(cst, k.tup, [&](auto& t) {
                    using namespace lager::lenses;
                    P_CHECK(lager::view(lager::lenses::first, t) == val(1, 2));
                    return lend(cst, k.m, [&](auto& m) {
                        auto u = lager::set(lager::lenses::first, t, m);
                        P_CHECK(std::get<0>(u) == val(1, 2));
                        return 0;
                    });
                });
            }
            break;
        }
        case 12: {
            auto b = lager::lenses::attr(&val::b);
            auto l = lager::lenses::fan(std::as_const(k.l_a), b);
            auto z = lager::lenses::zip(k.l_a, b);
            P_EQ(lager::view(b, k.m), 2);
            for (int i = 0; i < n; ++i) {
                lend(cst, k.m, [&](auto& m) {
                    P_CHECK(lager::view(l, m) == std::make_tuple(1, 2));
                    P_CHECK(lager::set(l, m, std::make_tuple(4, 5)) == val(4, 5));
                    auto two = std::make_tuple(m, m);
                    return lend(cst, two, [&](auto& two) {
                        P_CHECK(lager::view(z, two) == std::make_tuple(1, 2));
                        auto w = lager::set(z, two, std::make_tuple(8, 9));
                        P_CHECK(std::get<0>(w) == val(8, 2) &&
                                std::get<1>(w) == val(1, 9));
                        P_CHECK(std::get<0>(two) == val(1, 2) &&
                                    std::get<1>(two) == val(1, 2),
                                "the two were moved away");
                        return 0;
                    });
                });
            }
            break;
        }
        case 13: {
            using namespace lager::lenses;
            auto l  = at(1);
            auto l2 = lend(cst, k.key, [&](auto& y) { return at(y); });
            auto l3 = at_or(k.key, k.m);
            for (int i = 0; i < n; ++i) {
                lend(cst, k.vec, [&](auto& v) {
                    P_CHECK(lager::view(l, v) == std::optional<val>{val(2, 2)});
                    return lend(cst, k.m, [&](auto& m) {
                        auto w = lager::set(l, v, std::optional<val>{m});
                        P_CHECK(w.size() == 2 && w[0] == val(1, 1) && w[1] == val(1, 2));
                        return 0;
                    });
                });
                lend(cst, k.dict, [&](auto& d) {
                    P_CHECK(lager::view(l2, d) == std::optional<val>{val(5, 6)});
                    P_CHECK(lager::view(l3, d) == val(5, 6));
                    return lend(cst, k.m, [&](auto& m) {
                        auto w = lager::set(l3, d, m);
                        P_CHECK(w.at("k") == val(1, 2));
                        P_CHECK(lager::view(l3, std::map<std::string, val>{}) == m);
                        return 0;
                    });
                });
            }
            break;
        }
        case 14: {
            using namespace lager::lenses;
            auto ov  = std::optional<val>{val{3, 4}};
            auto def = val{8, 9};
            auto l   = value_or(def);
            auto mo  = map_opt(k.l_a);
            auto wo  = with_opt(k.l_a);
            for (int i = 0; i < n; ++i)
                lend(cst, ov, [&](auto& o) {
                    P_CHECK(lager::view(l, o) == val(3, 4));
                    P_CHECK(lager::view(l, std::optional<val>{}) == val(8, 9));
                    P_CHECK(lager::view(mo, o) == std::optional<int>{3});
                    P_CHECK(lager::set(mo, o, std::optional<int>{5}) ==
                            std::optional<val>{val(5, 4)});
                    P_CHECK(lager::view(wo, o) == std::optional<int>{3});
                    P_CHECK(o == std::optional<val>{val(3, 4)},
                            "the optional was moved away");
                    return 0;
                });
            P_CHECK(def == val(8, 9), "the default was moved away");
            break;
        }
        case 15: {
            auto l = lager::lenses::alternative<val>;
            for (int i = 0; i < n; ++i)
                lend(cst, k.v, [&](auto& v) {
                    P_CHECK(lager::view(l, v) == std::optional<val>{val(3, 4)});
                    return lend(cst, k.m, [&](auto& m) {
                        auto w = lager::set(l, v, std::optional<val>{m});
                        P_CHECK(std::get<val>(w) == val(1, 2));
                        return 0;
                    });
                });
            break;
        }
        case 16:
        case 17: {
            // every enhancer, on a loop of the user's own
            auto loop = own_loop{};
            auto enh  = lager::with_reducer(k.f_red);
            auto with = lager::with_deps(std::ref(k.svc), k.cfg);
            auto fut  = lager::with_futures;
            auto thk  = lager::with_thunk();
            auto was  = k.continued;
            auto use  = [&](auto&& make) {
                return twice(cst, loop, [&](auto& l) {
                    auto store = make(l);
                    if (loop.gone)
                        c.fail("the loop was moved away");
                    auto want = k.m;
                    for (int i = 0; i < n; ++i) {
                        lend(cst, k.a, [&](auto& a) {
                            return lend(cst, k.f_then, [&](auto& g) {
                                store.dispatch(a).then(g);
                                return 0;
                            });
                        });
                        loop.run();
                        want = kit::sum(want, k.a);
                        P_CHECK(store.get() == want,
                                "shows " << show(store.get()));
                    }
                    return 0;
                });
            };
            if (kind == 16)
                use([&](auto& l) { return lager::make_store<act>(k.m, l, enh, fut); });
            else {
                use([&](auto& l) {
                    return lager::make_store<act>(std::as_const(k.m), l, fut, with, enh);
                });
                use([&](auto& l) {
                    return lager::make_store<act>(std::as_const(k.m), l, enh, thk, fut);
                });
            }
            P_EQ(k.continued, was + (kind == 16 ? 2 : 4) * n, "continuations run");
            break;
        }
        case 18:
        case 19:
        case 20: {
            // an enhancer of the user's own, that makes the rest of the store
            // twice from what it keeps
            auto loop = own_loop{};
            auto was  = k.continued;
            auto m0   = k.m;
            auto lends = [&](auto next) {
                return [&, next](auto action, auto&&, auto&&, auto&&, auto&&, auto&& tags) {
                    auto make = [&] {
                        return lend(cst, m0, [&](auto& m) {
                            return lend(cst, k.f_red, [&](auto& r) {
                                return lend(cst, loop, [&](auto& l) {
                                    return next(action, m, r, l, k.deps, tags);
                                });
                            });
                        });
                    };
                    auto first = make();
                    if (loop.gone)
                        c.fail("the loop was moved away");
                    P_CHECK(m0 == k.m, "the model was moved away");
                    k.intact(c);
                    P_CHECK(first.get() == k.m, "shows " << show(first.get()));
                    return make();
                };
            };
            auto fut   = lager::with_futures;
            auto thk   = lager::with_thunk();
            auto with  = lager::with_deps(another{});
            auto enh   = lager::with_reducer(k.f_red2);
            auto use   = [&](auto&& store) {
                if (loop.gone)
                    c.fail("the loop was moved away");
                P_CHECK(lager::get<setting>(store).v == val(7, 8));
                P_CHECK(&lager::get<service>(store) == &k.svc);
                auto want = k.m;
                for (int i = 0; i < n; ++i) {
                    lend(cst, k.a, [&](auto& a) {
                        return lend(cst, k.f_then, [&](auto& g) {
                            store.dispatch(a).then(g);
                            return 0;
                        });
                    });
                    loop.run();
                    want = kit::sum(want, k.a);
                    P_CHECK(store.get() == want, "shows " << show(store.get()));
                }
                k.intact(c);
            };
            if (kind == 18)
                use(lager::make_store<act>(k.m, loop, lends, fut, with));
            else if (kind == 19)
                use(lager::make_store<act>(k.m, loop, lends, thk, fut));
            else
                use(lager::make_store<act>(k.m, loop, lends, enh, fut));
            P_EQ(k.continued, was + n, "continuations run");
            break;
        }
        default: {
            // a transactional store, watched and committed
            auto loop = lager::with_manual_event_loop{};
            auto enh  = lager::with_reducer(std::as_const(k.f_red2));
            auto with = lager::with_deps(std::ref(k.svc), std::as_const(k.cfg));
            auto was  = k.effects;
            auto both = lend(cst, enh, [&](auto& e) {
                return lend(cst, with, [&](auto& w) { return zug::comp(e, w); });
            });
            twice(cst, both, [&](auto& e) {
                auto store = lend(cst, loop, [&](auto& l) {
                    return lager::make_store<act, lager::transactional_tag>(k.m, l, e);
                });
                check_plain(store, [&] { lager::commit(store); }, cst, n);
                return 0;
            });
            P_EQ(k.effects, was + 2 * n, "effects run");
        }
        }
    };

    auto used = std::map<int, int>{};
    try {
        for (int i = 0; i < 40 && c.more(10); ++i) {
            auto kind = c.small(kinds);
            auto cst  = c.flip();
            auto n    = 1 + c.small(3);
            c.log("operation ", kind, cst ? " const, " : ", ", n, " times");
            apply(kind, cst, n);
            ++used[kind];
            k.intact(c);
        }
    } catch (const used_after_move& e) {
        c.fail(e.what());
    }
    auto most = 0;
    for (auto& [kind, n] : used)
        most = std::max(most, n);
    c.nontrivial(most >= 2 && used.size() >= 3);
}
