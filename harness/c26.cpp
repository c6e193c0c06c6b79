// C26: sensors refresh on commit only; constants and declared states never
// drift.
#include <cassert>

#include "c26.hpp"

#include <lager/lenses/attr.hpp>
#include <lager/with.hpp>

#include <zug/transducer/filter.hpp>

#include <array>
#include <functional>
#include <optional>
#include <vector>

#include "pbt.hpp"

using namespace c26;
using pbt::Case;
using u64 = std::uint64_t;

namespace {

u64 mix(u64 a, u64 b)
{
    auto x = a * 0x9e3779b97f4a7c15ull + b;
    x ^= x >> 29;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 32;
    return x + b * 3;
}

int coarse(int x) { return x >= 0 ? x / 3 : (x - 2) / 3; }
u64 u(int x) { return static_cast<u64>(static_cast<std::int64_t>(x)); }

struct world;
world* current_world = nullptr;

// everything the roots publish
struct snap
{
    std::array<int, n_roots> v{};
    std::string p_text;
};

struct node
{
    lager::reader<u64> r;
    std::function<u64(const snap&)> f;
    unsigned roots   = 0; // the roots it depends on
    int height       = 0;
    bool chain       = false; // a single path from a single root
    bool filtered    = false;
    u64 value        = 0;
    bool dropped     = false;
    int watchers     = 0;
    std::vector<u64> seen, expected;
};

struct world
{
    Case& c;
    std::unique_ptr<roots> r;
    snap now;                        // published
    std::array<int, n_roots> pend{}; // pending values of states and stores
    std::array<int, n_roots> var{};  // what the sensors would sample
    std::string p_var;
    std::array<int, n_roots> samples{}, samples_expected{};
    std::vector<std::unique_ptr<node>> nodes;
    unsigned committing = 0;

    // direct watchers of the sensors and the constant
    std::vector<int> seen_s, expected_s, seen_n, expected_n, seen_k, seen_m,
        expected_m, seen_u, expected_u;
    std::vector<std::string> seen_p, expected_p;

    int sampled_changes = 0, silent_changes = 0, mixed_commits = 0,
        constant_commits = 0, nudges = 0, watcher_writes = 0, mirrored = 0;

    bool dirty(int i) const
    {
        return i != sensor_s && i != sensor_p && i != sensor_n &&
               i != sensor_m && i != const_k && pend[i] != now.v[i];
    }
    unsigned dirty_set() const
    {
        auto s = 0u;
        for (auto i = 0; i < n_roots; ++i)
            s |= dirty(i) ? 1u << i : 0u;
        return s;
    }
    static bool is_sensor(int i)
    {
        return i == sensor_s || i == sensor_p || i == sensor_n ||
               i == sensor_m;
    }

    world(Case& c_)
        : c{c_}
    {
        current_world = this;
        for (auto i = 0; i < n_roots; ++i)
            var[i] = now.v[i] = pend[i] = c.small(5) - 2;
        p_var = now.p_text = "p";
        var[sensor_m] = 0;
        auto count    = [this](int i) { ++samples[i]; };
        auto s = [this, count] {
            count(sensor_s);
            return var[sensor_s];
        };
        auto p = [this, count]() -> const pt& {
            count(sensor_p);
            static thread_local pt held;
            held = pt{var[sensor_p], p_var};
            return held;
        };
        auto n = [this, count] {
            count(sensor_n);
            return raw{var[sensor_n]};
        };
        auto a = lager::make_state(now.v[state_a]);
        auto shown = lager::reader<int>(a);
        auto m = [this, count, shown] {
            count(sensor_m);
            return shown.get() * 10 + var[sensor_m];
        };
        now.v[sensor_m] = now.v[state_a] * 10;
        r               = std::unique_ptr<roots>(new roots{
            std::move(a),
            lager::state<int>(now.v[state_b]),
            lager::make_state(now.v[auto_u], lager::automatic_tag{}),
            c.flip() ? lager::make_sensor(s) : lager::sensor<int>(s),
            c.flip() ? lager::make_sensor(p) : lager::sensor<pt>(p),
            lager::make_sensor(n),
            lager::make_sensor(m),
            c.flip() ? lager::make_constant(now.v[const_k])
                     : lager::constant<int>(now.v[const_k]),
            lager::make_store<add, lager::transactional_tag>(
                now.v[store_t],
                lager::with_manual_event_loop{},
                lager::with_reducer(put_reducer{}))});
        for (auto i = 0; i < n_roots; ++i)
            samples_expected[i] = is_sensor(i) ? 1 : 0;
        r->s.watch([this](int x) {
            seen_s.push_back(x);
            look("the watcher of sensor s");
        });
        r->p.watch([this](const pt& x) {
            seen_p.push_back(std::to_string(x.a) + x.b);
            look("the watcher of sensor p");
        });
        r->n.watch([this](const raw& x) {
            seen_n.push_back(x.v);
            look("the watcher of sensor n");
        });
        r->m.watch([this](int x) {
            seen_m.push_back(x);
            look("the watcher of sensor m");
        });
        r->k.watch([this](int x) {
            seen_k.push_back(x);
            c.note_failure("the watcher of a constant ran");
        });
        r->u.watch([this](int x) {
            seen_u.push_back(x);
            look("the watcher of state u");
        });
    }

    // -- deriving ------------------------------------------------------------

    lager::reader<u64> base_reader(int i)
    {
        auto f = [](int x) { return u(x); };
        switch (i) {
        case state_a:
            return r->a.map(f);
        case state_b:
            return r->b.map(f);
        case auto_u:
            return r->u.map(f);
        case sensor_s:
            return c.flip() ? lager::reader<u64>(r->s.map(f))
                            : lager::reader<u64>(
                                  lager::reader<int>(r->s).map(f));
        case sensor_p:
            return r->p[&pt::a].map(f);
        case sensor_n:
            return r->n.map([](const raw& x) { return u(x.v); });
        case sensor_m:
            return r->m.map(f);
        case const_k:
            return r->k.map(f);
        default:
            return r->t.map(f);
        }
    }

    void add_node(std::unique_ptr<node> n, const std::string& what)
    {
        n->value = n->f(now);
        c.log("d", nodes.size(), " = ", what);
        nodes.push_back(std::move(n));
    }

    node* some_clean_node()
    {
        // (what is derived while a source has pending writes shows them, C05)
        for (auto k = 0; k < 3; ++k) {
            if (nodes.empty())
                return nullptr;
            auto& n = c.pick(nodes);
            if (!n->dropped && !(n->roots & dirty_set()))
                return n.get();
        }
        return nullptr;
    }

    void op_derive()
    {
        if (nodes.size() >= 24)
            return;
        auto n = std::make_unique<node>();
        switch (c.below(7)) {
        case 0:
        case 1: {
            auto i = static_cast<int>(c.below(n_roots));
            if (dirty(i))
                return;
            n->r     = base_reader(i);
            n->f     = [i](const snap& s) { return u(s.v[i]); };
            n->roots = 1u << i;
            n->chain = true;
            return add_node(std::move(n), root_names[i]);
        }
        case 2: {
            // a coarse view: most changes of the root are none of its
            auto i = static_cast<int>(c.below(2));
            n->r   = i ? lager::reader<u64>(
                           r->m.map([](int x) { return u(coarse(x)); }))
                       : lager::reader<u64>(
                           r->s.map([](int x) { return u(coarse(x)); }));
            auto k   = i ? sensor_m : sensor_s;
            n->f     = [k](const snap& s) { return u(coarse(s.v[k])); };
            n->roots = 1u << k;
            n->chain = true;
            return add_node(std::move(n), std::string("coarse ") + root_names[k]);
        }
        case 3: {
            auto x = some_clean_node();
            if (!x)
                return;
            auto k    = static_cast<u64>(c.below(7) + 1);
            n->r      = x->r.map([k](u64 v) { return mix(v, k); });
            n->f      = [f = x->f, k](const snap& s) { return mix(f(s), k); };
            n->roots  = x->roots;
            n->height = x->height + 1;
            n->chain  = x->chain;
            if (n->height > 6)
                return;
            return add_node(std::move(n), "map");
        }
        case 4: {
            auto x = some_clean_node();
            auto y = some_clean_node();
            if (!x || !y || x == y)
                return;
            n->r = lager::with(x->r, y->r).map([](u64 a, u64 b) {
                return mix(a, b);
            });
            n->f = [f = x->f, g = y->f](const snap& s) {
                return mix(f(s), g(s));
            };
            n->roots  = x->roots | y->roots;
            n->height = std::max(x->height, y->height) + 1;
            if (n->height > 6)
                return;
            return add_node(std::move(n), "merge of two");
        }
        case 5: {
            // straight from roots of different kinds
            if (dirty(state_a) || dirty(store_t) || dirty(auto_u))
                return;
            n->r = lager::with(r->s, r->a, r->k, r->t, r->u)
                       .map([](int a, int b, int k, int t, int w) {
                           return mix(mix(mix(u(a), u(b)), mix(u(k), u(t))),
                                      u(w));
                       });
            n->f = [](const snap& s) {
                return mix(mix(mix(u(s.v[sensor_s]), u(s.v[state_a])),
                               mix(u(s.v[const_k]), u(s.v[store_t]))),
                           u(s.v[auto_u]));
            };
            n->roots = 1u << sensor_s | 1u << state_a | 1u << const_k |
                       1u << store_t | 1u << auto_u;
            return add_node(std::move(n), "merge of five roots");
        }
        default: {
            auto j = static_cast<u64>(c.below(9));
            n->r   = r->p.map([j](const pt& x) {
                return mix(u(x.a), x.b.size() + j);
            });
            n->f = [j](const snap& s) {
                return mix(u(s.v[sensor_p]), s.p_text.size() + j);
            };
            n->roots = 1u << sensor_p;
            n->chain = true;
            return add_node(std::move(n), "struct sensor p, mapped");
        }
        }
    }

    void op_watch()
    {
        if (nodes.empty())
            return;
        auto& n = *c.pick(nodes);
        if (n.dropped || n.watchers >= 3)
            return;
        ++n.watchers;
        auto q      = &n;
        auto writes = c.chance(1, 8);
        auto cb     = [this, q, writes](u64 v) {
            q->seen.push_back(v);
            if (q->value != v)
                c.note_failure("a watcher got a value the reader never had");
            look("a watcher of a derived reader");
            if (writes && committing && !(committing & 1u << state_b)) {
                // pending until the next commit (writing what is being
                // committed defers its notifications, C06)
                ++watcher_writes;
                ++pend[state_b];
                r->b.update([](int x) { return x + 1; });
            }
        };
        if (c.chance(1, 4)) {
            c.log("bind");
            n.expected.push_back(n.value);
            n.r.bind(cb);
        } else {
            c.log("watch", writes ? " (and write to b)" : "");
            n.r.watch(cb);
        }
    }

    // -- changing ------------------------------------------------------------

    int fresh() { return c.small(7) - 3; }

    void op_write()
    {
        auto v = fresh();
        switch (c.below(5)) {
        case 0:
            c.log("a.set(", v, ")");
            pend[state_a] = v;
            r->a.set(v);
            break;
        case 1:
            c.log("b.update(+", v, ")");
            pend[state_b] += v;
            r->b.update([v](int x) { return x + v; });
            break;
        case 2:
            c.log("t.dispatch(", v, ")");
            pend[store_t] += v;
            r->t.dispatch(add{v});
            break;
        case 3:
            // (the update would show pending writes of others, see KF1)
            for (auto& n : nodes)
                if ((n->roots & 1u << auto_u) && (n->roots & dirty_set()))
                    return;
            c.log("u.set(", v, ")");
            pend[auto_u] = v;
            settle(1u << auto_u, false);
            r->u.set(v);
            break;
        default:
            op_var();
            break;
        }
    }

    void op_var()
    {
        auto k = static_cast<int>(c.below(5));
        auto v = fresh();
        switch (k) {
        case 0:
            var[sensor_s] = v;
            break;
        case 1:
            var[sensor_p] = v;
            break;
        case 2:
            var[sensor_n] = v;
            break;
        case 3:
            var[sensor_m] = v;
            break;
        default:
            p_var = c.word(2);
            break;
        }
        ++silent_changes;
        c.log("what sensor ", "spnmp"[k], " senses is now ", v);
    }

    // the model of a commit
    void settle(unsigned set, bool backwards)
    {
        auto before = now;
        auto one    = [&](int i) {
            if (!(set & 1u << i))
                return;
            if (i == sensor_p) {
                now.v[i]   = var[i];
                now.p_text = p_var;
            } else if (i == sensor_m) {
                now.v[i] = now.v[state_a] * 10 + var[i];
            } else if (is_sensor(i)) {
                now.v[i] = var[i];
            } else if (i != const_k) {
                now.v[i] = pend[i];
            }
            if (is_sensor(i)) {
                ++samples_expected[i];
                if (now.v[i] != before.v[i])
                    ++sampled_changes;
            }
        };
        if (backwards)
            for (auto i = n_roots - 1; i >= 0; --i)
                one(i);
        else
            for (auto i = 0; i < n_roots; ++i)
                one(i);
        if (now.v[sensor_s] != before.v[sensor_s])
            expected_s.push_back(now.v[sensor_s]);
        if (now.v[sensor_p] != before.v[sensor_p] ||
            now.p_text != before.p_text)
            expected_p.push_back(std::to_string(now.v[sensor_p]) + now.p_text);
        if (set & 1u << sensor_n)
            expected_n.push_back(now.v[sensor_n]);
        if (now.v[sensor_m] != before.v[sensor_m]) {
            expected_m.push_back(now.v[sensor_m]);
            ++mirrored;
        }
        if (now.v[auto_u] != before.v[auto_u])
            expected_u.push_back(now.v[auto_u]);
        for (auto& n : nodes) {
            auto v = n->f(now);
            if (v != n->value) {
                n->value = v;
                for (auto k = 0; k < n->watchers; ++k)
                    n->expected.push_back(v);
            }
        }
    }

    void op_commit()
    {
        auto set = c.below(1u << n_roots);
        if (c.chance(1, 4))
            set = 1u << c.below(n_roots);
        auto backwards = c.flip();
        // roots with pending writes that share a derived reader with a
        // committed root are committed too (see KF1)
        for (auto again = true; again;) {
            again = false;
            for (auto& n : nodes)
                if ((n->roots & set) && (n->roots & dirty_set() & ~set)) {
                    set |= n->roots & dirty_set();
                    again = true;
                }
        }
        auto text = std::string{};
        for (auto i = 0; i < n_roots; ++i)
            if (set & 1u << i)
                text += std::string(text.empty() ? "" : ", ") + root_names[i];
        c.log("commit(", text, ")", backwards ? " in reverse" : "");
        if ((set & 1u << const_k))
            ++constant_commits;
        auto sensors = 1u << sensor_s | 1u << sensor_p | 1u << sensor_n |
                       1u << sensor_m;
        if ((set & sensors) && (set & dirty_set()))
            ++mixed_commits;
        settle(set, backwards);
        committing = set;
        commit_set(*r, set, backwards);
        committing = 0;
    }

    void op_nudge()
    {
        if (nodes.empty() || c.flip()) {
            ++nudges;
            if (c.flip()) {
                c.log("s.nudge()");
                expected_s.push_back(now.v[sensor_s]);
                r->s.nudge();
            } else {
                c.log("p.nudge()");
                expected_p.push_back(std::to_string(now.v[sensor_p]) +
                                     now.p_text);
                r->p.nudge();
            }
            return;
        }
        auto& n = *c.pick(nodes);
        if (n.dropped)
            return;
        ++nudges;
        c.log("nudge");
        for (auto k = 0; k < n.watchers; ++k)
            n.expected.push_back(n.value);
        n.r.nudge();
    }

    // -- checking ------------------------------------------------------------

    void look(const char* who)
    {
        auto bad = [&](const std::string& what, auto got, auto want) {
            c.note_failure(std::string(who) + ": " + what + " shows " +
                           pbt::show(got) + " instead of " + pbt::show(want));
        };
        auto one = [&](int i, int got) {
            if (got != now.v[i])
                bad(root_names[i], got, now.v[i]);
        };
        one(state_a, r->a.get());
        one(state_b, r->b.get());
        one(auto_u, r->u.get());
        one(sensor_s, r->s.get());
        one(sensor_p, r->p.get().a);
        if (r->p.get().b != now.p_text)
            bad("struct sensor p", r->p.get().b, now.p_text);
        one(sensor_n, r->n.get().v);
        one(sensor_m, r->m.get());
        one(const_k, r->k.get());
        one(store_t, r->t.get());
        for (auto i = 0u; i < nodes.size(); ++i) {
            auto& n = *nodes[i];
            if (!n.dropped && n.r.get() != n.value)
                bad("d" + std::to_string(i), n.r.get(), n.value);
        }
    }

    void check()
    {
        look("afterwards");
        for (auto i = 0; i < n_roots; ++i)
            if (samples[i] != samples_expected[i])
                c.fail(std::string(root_names[i]) + " was sampled " +
                       std::to_string(samples[i]) + " times instead of " +
                       std::to_string(samples_expected[i]));
        P_EQ(seen_s, expected_s);
        P_EQ(seen_p, expected_p);
        P_EQ(seen_n, expected_n);
        P_EQ(seen_m, expected_m);
        P_EQ(seen_u, expected_u);
        P_CHECK(seen_k.empty());
        for (auto i = 0u; i < nodes.size(); ++i) {
            auto& n = *nodes[i];
            if (n.seen != n.expected)
                c.fail("the watchers of d" + std::to_string(i) + " got " +
                       pbt::show(n.seen) + " instead of " +
                       pbt::show(n.expected));
        }
        if (c.failed())
            throw pbt::failure{"failed in a watcher"};
    }

    void op_drop()
    {
        if (nodes.empty())
            return;
        auto& n = *c.pick(nodes);
        if (n.dropped)
            return;
        c.log("drop a reader");
        n.dropped  = true;
        n.watchers = 0;
        n.r        = {};
        n.r.unbind();
    }

    void run()
    {
        check();
        while (c.more(24)) {
            switch (c.below(16)) {
            case 0:
            case 1:
            case 2:
            case 3:
                op_derive();
                break;
            case 4:
            case 5:
                op_watch();
                break;
            case 6:
            case 7:
            case 8:
                op_write();
                break;
            case 9:
            case 10:
                op_var();
                break;
            case 11:
            case 12:
            case 13:
                op_commit();
                break;
            case 14:
                op_nudge();
                break;
            default:
                op_drop();
                break;
            }
            check();
        }
    }
};

// constants of any type and what is derived only from them
struct fixed_world
{
    Case& c;
    int notified = 0;

    template <typename T>
    void one(T v)
    {
        auto k = c.flip() ? lager::make_constant(v)
                          : lager::constant<T>(v);
        auto l = lager::make_constant(c.integer());
        auto d = lager::reader<T>(k);
        auto m = lager::with(k, l).map([](const T& x, int y) {
            return std::make_pair(x, y);
        });
        lager::reader<std::pair<T, int>> e = std::move(m);
        auto lv                            = l.get();
        auto count                         = [&](auto&&...) { ++notified; };
        k.watch(count);
        d.watch(count);
        e.watch(count);
        auto n = c.below(6);
        for (auto i = 0u; i < n; ++i) {
            switch (c.below(4)) {
            case 0:
                lager::commit(k);
                break;
            case 1:
                lager::commit(l, k);
                break;
            case 2: {
                auto copy = k;
                lager::commit(copy);
                break;
            }
            default: {
                auto st = lager::make_state(c.integer());
                auto f  = lager::with(k, st).map(
                    [](const T& x, int y) { return std::make_pair(x, y); });
                lager::reader<std::pair<T, int>> g = std::move(f);
                auto y                             = c.integer();
                st.set(y);
                lager::commit(k, st);
                P_CHECK(g.get() == std::make_pair(v, y));
                break;
            }
            }
            P_CHECK(k.get() == v);
            P_CHECK(d.get() == v);
            P_CHECK((e.get() == std::make_pair(v, lv)));
        }
        P_EQ(notified, 0);
        c.nontrivial(n >= 2);
    }

    void run()
    {
        switch (c.below(4)) {
        case 0:
            return one(c.integer());
        case 1:
            return one(c.text());
        case 2:
            return one(pt{c.integer(), c.text()});
        default:
            return one(std::vector<int>(c.below(5), c.integer()));
        }
    }
};

} // namespace

PBT_TARGET(mixed_roots, 10,
           "a sensor published a changed sample, what a sensor senses changed "
           "in between, and derived readers existed")
{
    world w{c};
    w.run();
    c.nontrivial(w.sampled_changes && w.silent_changes && !w.nodes.empty());
    c.label("sensors and pending roots committed together",
            w.mixed_commits > 0);
    c.label("a constant committed", w.constant_commits > 0);
    c.label("nudged", w.nudges > 0);
    c.label("a watcher wrote during a commit", w.watcher_writes > 0);
    c.label("a sensor of another reader", w.mirrored > 0);
}

PBT_TARGET(constants, 1, "two or more commits with constants")
{
    fixed_world{c}.run();
}
