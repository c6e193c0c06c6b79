// C32: an exception thrown by user code reaches the caller and leaves the
// graph usable: values are right, and later commits are delivered.
#include <cassert>

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "pbt.hpp"

using pbt::Case;

namespace {

struct oops
{
    int id;
};
enum
{
    from_watcher = 1,
    from_sensor,
    from_setter,
    from_update,
    from_lens,
    from_reducer,
    from_effect,
};

// what was moved away shows
struct duo
{
    int x = 0, y = 0;
    duo()           = default;
    duo(const duo&) = default;
    duo& operator=(const duo&) = default;
    duo(duo&& o)
        : x{std::exchange(o.x, -999)}
        , y{std::exchange(o.y, -999)}
    {}
    duo& operator=(duo&& o)
    {
        x = std::exchange(o.x, -999);
        y = std::exchange(o.y, -999);
        return *this;
    }
    bool operator==(const duo& o) const { return x == o.x && y == o.y; }
};

struct num
{
    int v = 0;
    num(int n = 0)
        : v{n}
    {}
    num(const num&) = default;
    num& operator=(const num&) = default;
    num(num&& o)
        : v{std::exchange(o.v, -999)}
    {}
    num& operator=(num&& o)
    {
        v = std::exchange(o.v, -999);
        return *this;
    }
    bool operator==(const num& o) const { return v == o.v; }
};

// what everybody can see
struct shown
{
    duo a;
    int b = 0, s = 0, w = 0, m = 0, k = 0;
};

struct act
{
    int kind; // 0: plain, 1: reducer throws, 2: effect, 3: effect throws
    int n;
};

struct node
{
    lager::reader<int> r;
    std::function<int(const shown&)> f;
    std::string name;
    bool late = false; // its change was cut off by an exception
};

struct watcher
{
    lager::reader<int> r;
    std::shared_ptr<node> n;
    int id;
    bool missed; // something, because of an exception
    std::vector<int> got;
};

struct world
{
    Case& c;
    int fuse    = -1; // calls of watchers until one throws
    bool burned = false;
    int sensed = 0, sensor_bad = 0, setter_bad = 0, lens_bad = 0;
    int effects = 0;
    std::vector<int> forwarded;
    bool touched = false; // a was written to

    shown now;
    duo pending;

    lager::queue_event_loop loop;
    lager::state<duo> a{duo{}};
    lager::state<num, lager::automatic_tag> b{num{}};
    lager::cursor<int> bv = b[&num::v];
    lager::sensor<int> s = lager::make_sensor([this] {
        if (sensor_bad)
            throw oops{from_sensor};
        return sensed;
    });
    lager::cursor<int> ax = a[&duo::x];
    lager::cursor<int> ay = a.zoom(lager::lenses::getset(
        [](const duo& d) { return d.y; },
        [this](duo d, int y) {
            if (lens_bad)
                throw oops{from_lens};
            d.y = y;
            return d;
        }));
    lager::cursor<int> w = lager::with_setter<lager::automatic_tag>(
        lager::reader<int>{ax}, [this](int v) {
            if (setter_bad)
                throw oops{from_setter};
            forwarded.push_back(v);
            ax.set(v);
        });

    using eff = lager::effect<act>;
    static std::pair<num, eff> reduce(world* me, num m, act t)
    {
        if (t.kind == 1)
            throw oops{from_reducer};
        auto e = eff{lager::noop};
        if (t.kind >= 2)
            e = eff{[me, t](auto&&) {
                if (t.kind == 3)
                    throw oops{from_effect};
                ++me->effects;
            }};
        return {num{m.v + t.n}, e};
    }
    lager::store<act, num> st = lager::make_store<act>(
        num{},
        lager::with_queue_event_loop{loop},
        lager::with_reducer(
            [this](num m, act t) {
                return reduce(this, std::move(m), t);
            }));
    lager::store<act, num> mst = lager::make_store<act>(
        num{},
        lager::with_manual_event_loop{},
        lager::with_reducer(
            [this](num m, act t) {
                return reduce(this, std::move(m), t);
            }));

    std::vector<std::shared_ptr<node>> nodes;
    std::vector<std::unique_ptr<watcher>> watchers;
    std::size_t roots = 0;
    int ids = 0, cut_off = 0, delivered_after = 0, thrown = 0, late_calls = 0;

    explicit world(Case& cc)
        : c{cc}
    {
        root("a.x", ax, [](const shown& v) { return v.a.x; });
        root("a.y", ay, [](const shown& v) { return v.a.y; });
        root("a mapped",
             a.map([](const duo& d) { return d.x + 3 * d.y; }),
             [](const shown& v) { return v.a.x + 3 * v.a.y; });
        root("b", b[&num::v], [](const shown& v) { return v.b; });
        root("sensor", s, [](const shown& v) { return v.s; });
        root("setter cursor", w, [](const shown& v) { return v.w; });
        root("store", st[&num::v], [](const shown& v) { return v.m; });
        root("manual store", mst[&num::v], [](const shown& v) { return v.k; });
        roots = nodes.size();
    }


    void root(std::string name, lager::reader<int> r, std::function<int(const shown&)> f)
    {
        nodes.push_back(std::make_shared<node>(
            node{r, std::move(f), std::move(name)}));
    }

    void check()
    {
        for (auto& n : nodes) {
            auto want = n->f(now);
            if (n->r.get() != want)
                c.fail(n->name + " is " + std::to_string(n->r.get()) +
                       ", expected " + std::to_string(want));
        }
        P_CHECK(a.get() == now.a);
        for (auto& x : watchers) {
            P_EQ(x->r.get(), x->n->f(now));
            P_EQ(x->got.size(), std::size_t{0});
        }
    }

    // something that throws what is expected, if anything
    template <typename Fn>
    int caught(Fn&& fn)
    {
        try {
            fn();
        } catch (const oops& o) {
            ++thrown;
            return o.id;
        }
        return 0;
    }

    // `fn` publishes `next`; before any watcher ran, it was cut off if `early`
    void published(const shown& next, int got, bool early = false)
    {
        auto cut = early || burned;
        if (burned)
            P_EQ(got, int{from_watcher});
        burned   = false;
        auto was = now;
        now      = next;
        for (auto& n : nodes)
            if (n->f(was) != n->f(now) || (touched && cut))
                n->late = cut;
        for (auto& x : watchers) {
            auto changed = x->n->f(was) != x->n->f(now);
            auto id      = "watcher " + std::to_string(x->id) + " of " + x->n->name;
            if (x->got.size() > 1)
                c.fail(id + " was notified " + std::to_string(x->got.size()) +
                       " times");
            auto called = !x->got.empty();
            if (called && x->got[0] != x->n->f(now))
                c.fail(id + " was told " + std::to_string(x->got[0]) +
                       ", not " + std::to_string(x->n->f(now)));
            x->got.clear();
            if (changed && !cut && !called)
                c.fail(id + " was not notified");
            if (!changed && called && !x->missed && !touched)
                c.fail(id + " was notified without a change");
            late_calls += called && !changed;
            delivered_after += changed && called && cut_off;
            if (called)
                x->missed = false;
            else if (changed || (touched && cut))
                x->missed = true;
        }
        cut_off += cut;
        check();
    }

    void derive()
    {
        // what is derived from what was not committed may show it
        if (nodes.size() > 24 || touched)
            return;
        auto p = c.pick(nodes);
        auto k = c.small(3);
        auto f = p->f;
        auto n = std::make_shared<node>(node{p->r, f, p->name});
        switch (c.below(3)) {
        case 0:
            n->r    = p->r.map([k](int x) { return x + k; });
            n->f    = [f, k](const shown& v) { return f(v) + k; };
            n->name = p->name + "+" + std::to_string(k);
            break;
        case 1:
            n->r    = p->r.map([](int x) { return x / 2; });
            n->f    = [f](const shown& v) { return f(v) / 2; };
            n->name = p->name + "/2";
            break;
        default:
            n->r = p->r.zoom(lager::lenses::getset(
                [](int x) { return -x; }, [](int, int x) { return -x; }));
            n->f    = [f](const shown& v) { return -f(v); };
            n->name = "-" + p->name;
        }
        c.log("derive ", n->name);
        nodes.push_back(n);
    }
    void watch()
    {
        if (watchers.size() > 12)
            return;
        auto n = c.pick(nodes);
        auto x = std::make_unique<watcher>(
            watcher{n->r, n, ids++, n->late, {}});
        auto p = x.get();
        c.log("watcher ", x->id, " of ", n->name);
        x->r.watch([this, p](int v) {
            p->got.push_back(v);
            if (fuse >= 0 && fuse-- == 0) {
                burned = true;
                throw oops{from_watcher};
            }
        });
        watchers.push_back(std::move(x));
    }
    void drop()
    {
        if (c.flip() && !watchers.empty()) {
            auto i = c.below(watchers.size());
            c.log("drop watcher ", watchers[i]->id);
            watchers.erase(watchers.begin() + i);
        } else if (nodes.size() > roots) {
            auto i = roots + c.below(nodes.size() - roots);
            c.log("drop ", nodes[i]->name);
            nodes.erase(nodes.begin() + i);
        }
    }

    void commit()
    {
        auto next  = now;
        auto early = false;
        auto k     = c.below(4);
        auto do_a  = [&] {
            next.a = pending;
            // what was written to the setter cursor may outlive a commit in
            // which its source did not change
            if (next.a.x != now.a.x || (touched && w.get() == next.a.x))
                next.w = next.a.x;
        };
        auto do_s = [&] {
            if (sensor_bad)
                early = true;
            else
                next.s = sensed;
        };
        static const char* names[] = {"a", "s", "a and s", "s and a"};
        c.log("commit ", names[k], sensor_bad ? " (the sensor throws)" : "");
        auto got = caught([&] {
            switch (k) {
            case 0:
                return lager::commit(a);
            case 1:
                return lager::commit(s);
            case 2:
                return lager::commit(a, s);
            default:
                return lager::commit(s, a);
            }
        });
        if (k == 0 || k == 2)
            do_a();
        if (k != 0)
            do_s();
        if (k == 3 && !early)
            do_a();
        if (early) {
            P_EQ(got, int{from_sensor});
            burned = false;
        } else if (!burned)
            P_EQ(got, 0);
        published(next, got, early);
        if (k == 0 || k == 2 || (k == 3 && !early))
            touched = false;
    }

    void write()
    {
        auto v    = c.small(6);
        auto bad  = c.chance(1, 4);
        auto upd  = c.flip();
        auto next = now;
        switch (c.below(4)) {
        case 0: {
            c.log(upd ? "update" : "set", " a.x to ", v, bad ? ", throws" : "");
            bad      = bad && upd;
            auto got = caught([&] {
                if (upd)
                    ax.update([&](int x) {
                        P_EQ(x, pending.x);
                        if (bad)
                            throw oops{from_update};
                        return v;
                    });
                else
                    ax.set(v);
            });
            P_EQ(got, bad ? int{from_update} : 0);
            if (!bad)
                pending.x = v, touched = true;
            check();
            break;
        }
        case 1: {
            c.log(upd ? "update" : "set", " a.y to ", v, bad ? ", throws" : "");
            lens_bad = bad;
            auto got = caught([&] {
                if (upd)
                    ay.update([&](int y) {
                        P_EQ(y, pending.y);
                        return v;
                    });
                else
                    ay.set(v);
            });
            lens_bad = 0;
            P_EQ(got, bad ? int{from_lens} : 0);
            if (!bad)
                pending.y = v, touched = true;
            check();
            break;
        }
        case 2: {
            c.log(upd ? "update" : "set", " b to ", v, bad ? ", throws" : "");
            auto got = caught([&] {
                if (upd)
                    b.update([&](num x) {
                        P_EQ(x.v, now.b);
                        if (bad)
                            throw oops{from_update};
                        x.v = v;
                        return x;
                    });
                else if (bad)
                    bv.update([&](int x) -> int {
                        P_EQ(x, now.b);
                        throw oops{from_update};
                    });
                else
                    c.flip() ? b.set(num{v}) : bv.set(v);
            });
            if (bad)
                P_EQ(got, int{from_update});
            else if (!burned)
                P_EQ(got, 0);
            if (!bad)
                next.b = v;
            published(next, got);
            break;
        }
        default: {
            c.log("write ", v, " to the setter cursor", bad ? ", throws" : "");
            setter_bad = bad;
            auto n     = forwarded.size();
            auto got   = caught([&] {
                if (upd)
                    w.update([&](int) { return v; });
                else
                    w.set(v);
            });
            setter_bad = 0;
            if (bad)
                P_EQ(got, int{from_setter});
            else if (!burned)
                P_EQ(got, 0);
            if (!bad) {
                P_EQ(forwarded.size(), n + 1);
                P_EQ(forwarded.back(), v);
                pending.x = v, touched = true;
                next.w    = v;
            } else
                P_EQ(forwarded.size(), n);
            published(next, got);
        }
        }
    }

    void dispatch()
    {
        auto t = act{c.chance(1, 2) ? 0 : 1 + c.small(3), c.small(3)};
        static const char* kinds[] = {
            "", ", the reducer throws", ", with an effect", ", the effect throws"};
        auto manual = c.flip();
        c.log("dispatch ", t.n, manual ? " to the manual store" : "", kinds[t.kind]);
        auto was = effects;
        auto all = std::vector<int>{};
        auto more = 0;
        if (!manual)
            loop.post([&] { ++more; });
        auto got = caught([&] { manual ? mst.dispatch(t) : st.dispatch(t); });
        if (manual) {
            if (got)
                all.push_back(got);
        } else {
            P_EQ(got, 0);
            P_EQ(st.get().v, now.m);
            loop.post([&] { ++more; });
            for (int i = 0; i < 30; ++i) {
                got = caught([&] { loop.step(); });
                if (!got)
                    break;
                all.push_back(got);
            }
            P_EQ(got, 0);
            P_EQ(more, 2, "other work of the loop");
        }
        auto next = now;
        if (t.kind != 1)
            (manual ? next.k : next.m) += t.n;
        auto want = std::vector<int>{};
        if (t.kind == 1)
            want.push_back(from_reducer);
        if (burned)
            want.push_back(from_watcher);
        else if (t.kind == 3)
            want.push_back(from_effect);
        P_CHECK(all == want, "the exceptions of a step");
        // nobody says whether an effect runs when a watcher throws before it
        if (t.kind == 2 && !burned)
            P_EQ(effects, was + 1);
        else if (t.kind == 2)
            P_CHECK(effects == was || effects == was + 1);
        else
            P_EQ(effects, was);
        published(next, burned ? int{from_watcher} : 0);
    }

    void run()
    {
        check();
        for (int n = 0; n < 60 && c.more(25); ++n) {
            switch (c.below(9)) {
            case 0:
            case 1:
                write();
                break;
            case 2:
            case 3:
                commit();
                break;
            case 4:
                dispatch();
                break;
            case 5:
                watch();
                break;
            case 6:
                c.flip() ? derive() : drop();
                break;
            case 7:
                sensed     = c.small(4);
                sensor_bad = c.chance(1, 4);
                c.log("the sensor will ",
                      sensor_bad ? "throw" : std::to_string(sensed));
                break;
            default:
                fuse = c.small(4);
                c.log("a watcher will throw in ", fuse, " calls");
            }
        }
        // the world goes on
        fuse       = -1;
        sensor_bad = 0;
        auto next  = now;
        for (auto i = 0; i < 2; ++i) {
            c.log("everything changes");
            ax.set(pending.x = pending.x + 7);
            ay.set(pending.y = pending.y + 7);
            sensed = now.s + 7;
            check();
            auto got = caught([&] { lager::commit(a, s); });
            P_EQ(got, 0);
            next   = now;
            next.a = pending;
            next.s = sensed;
            if (now.a.x != next.a.x || w.get() == next.a.x)
                next.w = next.a.x;
            published(next, got);
            next = now;
            got  = caught([&] { b.set(num{now.b + 7}); });
            P_EQ(got, 0);
            next.b += 7;
            published(next, got);
            next = now;
            mst.dispatch(act{0, 7});
            next.k += 7;
            published(next, 0);
            st.dispatch(act{0, 7});
            loop.step();
            next.m += 7;
            published(next, 0);
        }
    }
};

} // namespace

PBT_TARGET(exceptions, 5,
           "a watcher or a sensor cut a publication off, and a later change "
           "was delivered")
{
    world w{c};
    w.run();
    c.nontrivial(w.cut_off && w.delivered_after);
    c.label("an exception was caught", w.thrown > 0);
    c.label("a late notification", w.late_calls > 0);
}
