// C33: readers, cursors and lenses made from what the caller keeps
#include "c33.hpp"

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

using pbt::Case;
using namespace keep;

namespace {

using dict = std::map<std::string, int>;

struct shown
{
    val x;
    dict m;
    std::optional<val> o;
};


struct world
{
    Case& c;
    shown now;
    lager::state<val, lager::automatic_tag> x{val{1, 2}};
    lager::state<dict, lager::automatic_tag> m{dict{{"k", 3}}};
    lager::state<std::optional<val>, lager::automatic_tag> o{
        std::optional<val>{}};

    struct node
    {
        lager::reader<int> r;
        std::function<int(const shown&)> f;
        std::string name;
    };
    struct edit
    {
        lager::cursor<int> w;
        std::function<void(shown&, int)> f;
        std::string name;
    };
    std::vector<node> nodes;
    std::vector<edit> edits;
    std::vector<int> calls, wanted;
    int inbox = 0, sensed = 5;
    int ops = 0, again = 0;
    std::map<int, int> used;

    world(Case& cc)
        : c{cc}
        , now{val{1, 2}, dict{{"k", 3}}, std::nullopt}
    {
        add("x.a", x[&val::a], [](const shown& s) { return s.x.a; });
    }

    void add(std::string n,
             lager::reader<int> r,
             std::function<int(const shown&)> f)
    {
        nodes.push_back({std::move(r), std::move(f), std::move(n)});
        auto want = nodes.back().f(now);
        if (nodes.back().r.get() != want)
            c.fail(nodes.back().name + " is " +
                   std::to_string(nodes.back().r.get()) + ", expected " +
                   std::to_string(want));
    }
    void add(std::string n,
             lager::cursor<int> w,
             std::function<int(const shown&)> f,
             std::function<void(shown&, int)> g)
    {
        edits.push_back({w, std::move(g), n});
        add(std::move(n), lager::reader<int>{w}, std::move(f));
    }
    void check(const char* what)
    {
        for (auto& n : nodes)
            if (n.r.get() != n.f(now))
                c.fail(std::string{what} + ": " + n.name + " is " +
                       std::to_string(n.r.get()) + ", expected " +
                       std::to_string(n.f(now)));
        P_CHECK(x.get() == now.x);
        P_CHECK(m.get() == now.m);
        P_CHECK(o.get() == now.o);
    }
};

// what the user keeps, as long as it wants to
struct kit
{
    world& w;
    val v{3, 4};
    std::string key = "k", absent = "no such key at all, ever";
    int dflt        = 77;
    val vdflt{8, 9};
    std::optional<val> ov{val{5, 6}};

    static constexpr auto sum = [](const val& x) { return x.a + x.b; };
    static constexpr auto get_b = [](const val& x) { return x.b; };
    static constexpr auto set_b = [](val x, int b) {
        x.b = b;
        return x;
    };
    static constexpr auto minus = [](int x) { return -x; };
    static constexpr auto reset = [](int, int x) { return -x; };
    static constexpr auto inc   = [](int x) { return x + 1; };
    static constexpr auto dec   = [](int x) { return x - 1; };
    static constexpr auto yes   = [](int) { return true; };
    static constexpr auto add2  = [](auto x, auto y) { return x + y; };
    static constexpr auto swap_ = [](val x) { return val{x.b, x.a}; };

    using sum_t = std::decay_t<decltype(sum)>;
    kept<std::decay_t<decltype(sum)>> f_sum{"the sum", sum};
    kept<std::decay_t<decltype(get_b)>> f_get{"the getter", get_b};
    kept<std::decay_t<decltype(set_b)>> f_set{"the setter", set_b};
    kept<std::decay_t<decltype(minus)>> f_minus{"minus", minus};
    kept<std::decay_t<decltype(reset)>> f_reset{"minus back", reset};
    kept<std::decay_t<decltype(inc)>> f_inc{"the increment", inc};
    kept<std::decay_t<decltype(dec)>> f_dec{"the decrement", dec};
    kept<std::decay_t<decltype(yes)>> f_yes{"the filter", yes};
    kept<std::decay_t<decltype(add2)>> f_add{"the addition", add2};
    kept<std::decay_t<decltype(swap_)>> f_swap{"the update", swap_};
    kept<std::function<void(int)>> f_put{"the setter function",
                                         [this](int n) { w.inbox = n; }};
    kept<std::function<int()>> f_sense{"the sensor function",
                                       [this] { return w.sensed; }};

    decltype(lager::lenses::getset(std::as_const(f_get), std::as_const(f_set))) l_b =
        lager::lenses::getset(std::as_const(f_get), std::as_const(f_set));
    decltype(lager::lenses::getset(std::as_const(f_minus), std::as_const(f_reset))) l_neg =
        lager::lenses::getset(std::as_const(f_minus), std::as_const(f_reset));
    decltype(zug::map(std::as_const(f_sum))) xf_sum = zug::map(std::as_const(f_sum));
    decltype(zug::map(std::as_const(f_inc))) xf_inc = zug::map(std::as_const(f_inc));
    decltype(zug::map(std::as_const(f_dec))) xf_dec = zug::map(std::as_const(f_dec));
    decltype(lager::lenses::at(std::as_const(key))) l_at =
        lager::lenses::at(std::as_const(key));
    lager::lens<val, int> l_erased{l_b};

    void intact()
    {
        auto& c = w.c;
        auto ok = [&](auto& f) {
            if (f.gone)
                c.fail(std::string{f.name} + " was moved away");
        };
        ok(f_sum);
        ok(f_get);
        ok(f_set);
        ok(f_minus);
        ok(f_reset);
        ok(f_inc);
        ok(f_dec);
        ok(f_yes);
        ok(f_add);
        ok(f_swap);
        ok(f_put);
        ok(f_sense);
        P_CHECK(v == val(3, 4), "the value was moved away");
        P_CHECK(vdflt == val(8, 9), "the default was moved away");
        P_CHECK(ov == std::optional<val>{val(5, 6)}, "the optional was moved away");
        P_EQ(key, std::string{"k"});
        P_EQ(absent, std::string{"no such key at all, ever"});
        P_EQ(dflt, 77);
    }
    // the lenses still do what they did
    void lenses_work()
    {
        auto& c = w.c;
        P_EQ(lager::view(l_b, val{1, 2}), 2);
        P_CHECK(lager::set(l_b, val{1, 2}, 3) == val(1, 3));
        P_EQ(lager::view(l_neg, 4), -4);
        P_CHECK(lager::view(l_at, dict{{"k", 1}}) == std::optional<int>{1});
        P_EQ(lager::view(l_erased, val{1, 2}), 2);
    }
};

constexpr auto kinds = 40;

lager::reader<int> as_rd(lager::reader<int> x) { return x; }
lager::cursor<int> as_cur(lager::cursor<int> x) { return x; }

} // namespace

PBT_TARGET(kept_by_graphs, 5, "something was used for several readers or cursors")
{
    auto w  = world{c};
    auto k_ = kit{w};
    auto& k = k_;
    auto watched = std::vector<std::unique_ptr<lager::reader<int>>>{};
    auto n_calls = std::make_shared<int>(0);
    auto f_watch = kept{"the watcher", [n_calls](int) { ++*n_calls; }};
    int watchers = 0;

    auto apply = [&](int kind, bool cst) {
        using rd  = lager::reader<int>;
        using cur = lager::cursor<int>;
        auto sum  = [](const shown& s) { return s.x.a + s.x.b; };
        auto get_b = [](const shown& s) { return s.x.b; };
        auto put_b = [](shown& s, int b) { s.x.b = b; };
        auto& from = c.pick(w.nodes);
        auto ff    = from.f;
        switch (kind) {
        case 0:
            w.add("x mapped", lend(cst, k.f_sum, [&](auto& f) -> rd { return w.x.map(f); }), sum);
            break;
        case 1:
            w.add("x through xform", lend(cst, k.xf_sum, [&](auto& f) -> rd { return w.x.xform(f); }), sum);
            break;
        case 2:
            w.add("x zoomed", lend(cst, k.l_b, [&](auto& l) -> cur { return w.x.zoom(l); }), get_b, put_b);
            break;
        case 3:
            w.add("x[lens]", lend(cst, k.l_b, [&](auto& l) -> cur { return w.x[l]; }), get_b, put_b);
            break;
        case 4:
            w.add("with(x) mapped",
                  lend(cst, k.f_inc, [&](auto& f) -> rd {
                      return lend(cst, k.f_sum, [&](auto& g) -> rd {
                          return lager::with(w.x).map(g).map(f).map(f);
                      });
                  }),
                  [sum](auto& s) { return sum(s) + 2; });
            break;
        case 5:
            w.add("two readers",
                  lend(cst, k.f_add, [&](auto& f) -> rd {
                      return lend(cst, from.r, [&](auto& r) -> rd {
                          auto y_ = as_rd(w.x[&val::b]);
                          return lend(cst, y_, [&](auto& y) -> rd {
                              return lager::with(r, y).map(f);
                          });
                      });
                  }),
                  [ff](auto& s) { return s.x.b + ff(s); });
            break;
        case 6:
            w.add(from.name + " zoomed twice",
                  lend(cst, k.l_neg, [&](auto& l) -> rd {
                      return lend(cst, from.r, [&](auto& r) -> rd {
                          return lager::with(r).zoom(l).zoom(l);
                      });
                  }),
                  ff);
            break;
        case 7:
            w.add(from.name + " mapped and zoomed",
                  lend(cst, k.l_neg, [&](auto& l) -> rd {
                      return lend(cst, k.f_inc, [&](auto& f) -> rd {
                          return from.r.map(f).zoom(l).map(f);
                      });
                  }),
                  [ff](auto& s) { return -(ff(s) + 1) + 1; });
            break;
        case 8:
            w.add("x zoomed, then mapped",
                  lend(cst, k.l_b, [&](auto& l) -> rd {
                      return lend(cst, k.xf_inc, [&](auto& f) -> rd {
                          return w.x.zoom(l).xform(f);
                      });
                  }),
                  [get_b](auto& s) { return get_b(s) + 1; });
            break;
        case 9:
            w.add("x.b both ways",
                  lend(cst, k.xf_inc, [&](auto& f) -> cur {
                      return lend(cst, k.xf_dec, [&](auto& g) -> cur {
                          return w.x.zoom(k.l_b).make().xform(f, g);
                      });
                  }),
                  [get_b](auto& s) { return get_b(s) + 1; },
                  [put_b](auto& s, int n) { put_b(s, n - 1); });
            break;
        case 10:
            w.add("x.b both ways, at once",
                  lend(cst, k.xf_inc, [&](auto& f) -> cur {
                      return lend(cst, k.xf_dec, [&](auto& g) -> cur {
                          return w.x.zoom(k.l_b).xform(f, g);
                      });
                  }),
                  [get_b](auto& s) { return get_b(s) + 1; },
                  [put_b](auto& s, int n) { put_b(s, n - 1); });
            break;
        case 11:
            w.add("x.b both ways, zoomed",
                  lend(cst, k.xf_inc, [&](auto& f) -> cur {
                      return lend(cst, k.xf_dec, [&](auto& g) -> cur {
                          return lend(cst, k.l_neg, [&](auto& l) -> cur {
                              return w.x.zoom(k.l_b).make().xform(f, g).zoom(l);
                          });
                      });
                  }),
                  [get_b](auto& s) { return -(get_b(s) + 1); },
                  [put_b](auto& s, int n) { put_b(s, -n - 1); });
            break;
        case 12:
            w.add("x.b both ways, twice",
                  lend(cst, k.xf_inc, [&](auto& f) -> cur {
                      return lend(cst, k.xf_dec, [&](auto& g) -> cur {
                          return w.x.zoom(k.l_b).make().xform(f, g).xform(f, g);
                      });
                  }),
                  [get_b](auto& s) { return get_b(s) + 2; },
                  [put_b](auto& s, int n) { put_b(s, n - 2); });
            break;
        case 13:
            w.add("erased lens", lend(cst, k.l_erased, [&](auto& l) -> cur { return w.x.zoom(l); }), get_b, put_b);
            break;
        case 14: {
            auto l = lend(cst, k.l_b, [&](auto& l) {
                return lend(cst, k.l_neg, [&](auto& n) {
                    return lager::lens<val, int>{zug::comp(l, n)};
                });
            });
            w.add("composed lens", as_cur(w.x.zoom(l)), [get_b](auto& s) { return -get_b(s); },
                  [put_b](auto& s, int n) { put_b(s, -n); });
            break;
        }
        case 15: {
            auto l = lend(cst, k.f_get, [&](auto& g) {
                return lend(cst, k.f_set, [&](auto& s) {
                    return lager::lens<val, int>{lager::lenses::getset(g, s)};
                });
            });
            w.add("new getset", as_cur(w.x.zoom(l)), get_b, put_b);
            break;
        }
        case 16:
            w.add("m[key]",
                  lend(cst, k.key, [&](auto& y) -> rd {
                      return w.m[y].map([](std::optional<int> n) { return n.value_or(-1); });
                  }),
                  [](auto& s) { return s.m.count("k") ? s.m.at("k") : -1; });
            break;
        case 17:
            w.add("m at key",
                  lend(cst, k.l_at, [&](auto& l) -> rd {
                      return w.m.zoom(l).map([](std::optional<int> n) { return n.value_or(-1); });
                  }),
                  [](auto& s) { return s.m.count("k") ? s.m.at("k") : -1; });
            break;
        case 18:
            w.add("m at key or default",
                  lend(cst, k.key, [&](auto& y) -> cur {
                      return lend(cst, k.dflt, [&](auto& d) -> cur {
                          return w.m.zoom(lager::lenses::at_or(y, d));
                      });
                  }),
                  [](auto& s) { return s.m.count("k") ? s.m.at("k") : 77; },
                  [](auto& s, int n) {
                      if (s.m.count("k"))
                          s.m["k"] = n;
                  });
            break;
        case 19:
            w.add("m at absent or default",
                  lend(cst, k.absent, [&](auto& y) -> cur {
                      return lend(cst, k.dflt, [&](auto& d) -> cur {
                          return w.m.zoom(lager::lenses::at(y))
                              .make()
                              .zoom(lager::lenses::value_or(d));
                      });
                  }),
                  [](auto&) { return 77; },
                  [](auto&, int) {});
            break;
        case 20:
            w.add("o or default, its b",
                  lend(cst, k.vdflt, [&](auto& d) -> rd {
                      return lend(cst, k.l_b, [&](auto& l) -> rd {
                          return w.o.zoom(lager::lenses::value_or(d)).zoom(l);
                      });
                  }),
                  [](auto& s) { return s.o ? s.o->b : 9; });
            break;
        case 21:
            w.add("b of o",
                  lend(cst, k.l_b, [&](auto& l) -> rd {
                      return w.o.zoom(lager::lenses::map_opt(l))
                          .map([](std::optional<int> n) { return n.value_or(-1); });
                  }),
                  [](auto& s) { return s.o ? s.o->b : -1; });
            break;
        case 22:
            w.add("b of o, forced",
                  lend(cst, k.l_b, [&](auto& l) -> rd {
                      return w.o.zoom(lager::lenses::with_opt(l))
                          .map([](std::optional<int> n) { return n.value_or(-1); });
                  }),
                  [](auto& s) { return s.o ? s.o->b : -1; });
            break;
        case 23: {
            auto p = lend(cst, k.v, [&](auto& v) { return lager::make_state(v, lager::automatic_tag{}); });
            w.add("a state of its own", as_rd(p.map([](const val& v) { return v.a + v.b; })), [](auto&) { return 7; });
            break;
        }
        case 24: {
            auto p = lend(cst, k.v, [&](auto& v) { return lager::make_constant(v); });
            w.add("a constant", as_rd(p.map([](const val& v) { return v.a + v.b; })), [](auto&) { return 7; });
            auto q = lend(cst, k.v, [&](auto& v) { return lager::constant<val>{v}; });
            w.add("another constant", as_rd(q.map([](const val& v) { return v.a + v.b; })), [](auto&) { return 7; });
            auto t = lend(cst, k.v, [&](auto& v) { return lager::state<val>{v}; });
            w.add("another state", as_rd(t.map([](const val& v) { return v.a + v.b; })), [](auto&) { return 7; });
            break;
        }
        case 25: {
            auto s = lend(cst, k.f_sense, [&](auto& f) { return lager::make_sensor(f); });
            w.add("a sensor", as_rd(s), [n = w.sensed](auto&) { return n; });
            auto t = lend(cst, k.f_sense, [&](auto& f) { return lager::sensor<int>{f}; });
            w.add("another sensor", as_rd(t), [n = w.sensed](auto&) { return n; });
            ++w.sensed;
            break;
        }
        case 26: {
            // it only forwards
            auto s = lend(cst, k.f_put, [&](auto& f) -> cur {
                return lend(cst, from.r, [&](auto& r) -> cur {
                    return c.flip() ? as_cur(lager::with_setter(r, f))
                                    : as_cur(r.setter(f));
                });
            });
            P_EQ(s.get(), ff(w.now));
            auto n = c.small(9);
            s.set(n);
            P_EQ(w.inbox, n);
            break;
        }
        case 27: {
            auto s = lend(cst, k.f_put, [&](auto& f) -> cur {
                return lend(cst, k.f_sum, [&](auto& g) -> cur {
                    return w.x.map(g).setter(f);
                });
            });
            P_EQ(s.get(), sum(w.now));
            auto n = c.small(9);
            s.set(n);
            P_EQ(w.inbox, n);
            break;
        }
        case 28:
            if (!w.calls.empty() || watchers >= 6)
                break;
            watched.push_back(std::make_unique<rd>(w.x[&val::a]));
            lend(cst, f_watch, [&](auto& f) {
                auto bind = c.flip();
                auto was  = *n_calls;
                if (bind)
                    watched.back()->bind(f);
                else if (c.flip())
                    watched.back()->watch(f);
                else
                    lager::watch(*watched.back(), f);
                P_EQ(*n_calls, was + bind);
                return 0;
            });
            ++watchers;
            P_CHECK(!f_watch.gone, "the watcher was moved away");
            break;
        case 29:
            lend(cst, k.v, [&](auto& v) {
                auto was = *n_calls;
                auto diff = w.now.x.a != k.v.a;
                w.x.set(v);
                w.now.x = val{3, 4};
                P_EQ(*n_calls, was + diff * watchers, "watchers called");
                return 0;
            });
            break;
        case 30:
            lend(cst, k.f_swap, [&](auto& f) {
                auto was = *n_calls;
                auto diff = w.now.x.a != w.now.x.b;
                w.x.update(f);
                w.now.x = val{w.now.x.b, w.now.x.a};
                P_EQ(*n_calls, was + diff * watchers, "watchers called");
                return 0;
            });
            break;
        case 31:
            lend(cst, k.ov, [&](auto& v) {
                w.o.set(v);
                w.now.o = val{5, 6};
                return 0;
            });
            break;
        case 32:
            w.o.set(std::nullopt);
            w.now.o = std::nullopt;
            break;
        case 33:
            lend(cst, k.v, [&](auto& v) {
                lager::writer<val> y = w.x;
                y.set(v);
                w.now.x = val{3, 4};
                return 0;
            });
            break;
        case 34: {
            auto there = w.now.m.count("k") == 0;
            w.m.set(there ? dict{{"k", c.small(9)}} : dict{});
            w.now.m = w.m.get();
            P_EQ(w.now.m.size(), std::size_t(there));
            break;
        }
        case 35:
            lend(cst, k.f_inc, [&](auto& f) {
                if (w.edits.empty())
                    return 0;
                auto& e = c.pick(w.edits);
                c.log("update ", e.name);
                auto n = e.w.get();
                e.f(w.now, n + 1);
                e.w.update(f);
                return 0;
            });
            break;
        case 36:
            lend(cst, k.f_yes, [&](auto& f) {
                w.add(from.name + " filtered", lend(cst, from.r, [&](auto& r) -> rd { return r.filter(f); }), ff);
                return 0;
            });
            break;
        case 37: {
            // all three, merged
            w.add("merged",
                  lend(cst, w.x, [&](auto& x) -> rd {
                      return lend(cst, w.m, [&](auto& m) -> rd {
                          return lend(cst, from.r, [&](auto& r) -> rd {
                              return lager::with(x, m, r).map(
                                  [](const val& v, const dict& d, int n) {
                                      return v.a + int(d.size()) + n;
                                  });
                          });
                      });
                  }),
                  [ff](auto& s) { return s.x.a + int(s.m.size()) + ff(s); });
            break;
        }
        case 38: {
            auto l = lend(cst, k.l_b, [&](auto& l) {
                return lager::lens<val, int>{l};
            });
            auto l2 = lend(cst, l, [&](auto& y) { return lager::lens<val, int>{y}; });
            P_EQ(lager::view(l, val(1, 2)), 2);
            w.add("erased again", as_cur(w.x.zoom(l2)), get_b, put_b);
            break;
        }
        default: {
            auto n = c.small(9);
            auto was = *n_calls;
            auto diff = w.now.x.a != n;
            c.log("x.a is ", n);
            w.x[&val::a].make().set(n);
            w.now.x.a = n;
            P_EQ(*n_calls, was + diff * watchers, "watchers called");
        }
        }
    };

    auto used = std::map<int, int>{};
    try {
        for (int n = 0; n < 60 && c.more(20); ++n) {
            if (w.nodes.size() > 40)
                break;
            auto kind = c.small(kinds);
            auto cst  = c.flip();
            c.log("operation ", kind, cst ? " const" : "");
            // watchers are only counted where x.a is written as such
            apply(kind, cst);
            ++used[kind];
            k.intact();
            w.check("then");
        }
        k.lenses_work();
        // and everything can be used again
        for (auto& [kind, n] : used) {
            c.log("once more, operation ", kind);
            apply(kind, true);
            k.intact();
            w.check("then");
        }
    } catch (const used_after_move& e) {
        c.fail(e.what());
    }
    auto most = 0;
    for (auto& [kind, n] : used)
        most = std::max(most, n);
    c.nontrivial(most >= 2 && used.size() >= 3);
}
