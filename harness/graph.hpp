// Random worlds of roots, readers and cursors, against a reference model.
//
// Roots: states, stores, sensors and constants (transactional or automatic).
// Derived: lenses (members, bijections, overlapping), maps, filters, merges,
// bidirectional transformations and fused chains, to any depth and sharing.
// Operations: sets, updates, dispatches, sensor changes, commits of any set of
// roots, watching, binding, nudging, copying and dropping handles, and writes
// from inside of watchers.
//
// The model keeps, per node, the published and the pending value, as pure
// functions of the roots; every property judges its own class of checks.
#pragma once

#include <pbt.hpp>

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/with.hpp>

#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>
#include <vector>

namespace graph {

using pbt::Case;

// ---- values -----------------------------------------------------------------

struct P
{
    int a = 0, b = 0;
    bool operator==(const P& o) const { return a == o.a && b == o.b; }
};
struct Q
{
    P p;
    int n = 0;
    P q;
    bool operator==(const Q& o) const
    {
        return p == o.p && n == o.n && q == o.q;
    }
};
struct U // no equality
{
    int a = 0, b = 0;
};
using M = std::tuple<int, int>;
using N = std::tuple<P, int>;

using val = std::vector<int>;

inline val enc(int x) { return {x}; }
inline val enc(const P& x) { return {x.a, x.b}; }
inline val enc(const Q& x) { return {x.p.a, x.p.b, x.n, x.q.a, x.q.b}; }
inline val enc(const U& x) { return {x.a, x.b}; }
inline val enc(const M& x) { return {std::get<0>(x), std::get<1>(x)}; }
inline val enc(const N& x)
{
    return {std::get<0>(x).a, std::get<0>(x).b, std::get<1>(x)};
}
inline void dec(const val& v, int& x) { x = v[0]; }
inline void dec(const val& v, P& x) { x = {v[0], v[1]}; }
inline void dec(const val& v, Q& x)
{
    x = {{v[0], v[1]}, v[2], {v[3], v[4]}};
}
inline void dec(const val& v, U& x) { x = {v[0], v[1]}; }
inline void dec(const val& v, M& x) { x = {v[0], v[1]}; }
inline void dec(const val& v, N& x) { x = {{v[0], v[1]}, v[2]}; }
template <typename T>
T as(const val& v)
{
    T x{};
    dec(v, x);
    return x;
}
template <typename T>
constexpr std::size_t width()
{
    if constexpr (std::is_same_v<T, int>)
        return 1;
    else if constexpr (std::is_same_v<T, Q>)
        return 5;
    else if constexpr (std::is_same_v<T, N>)
        return 3;
    else
        return 2;
}

// ---- functions used by derived nodes ----------------------------------------

struct half
{
    int operator()(int x) const { return x / 2; }
};
struct spread
{
    P operator()(int x) const { return {x, x % 3}; }
};
struct diff
{
    int operator()(const P& p) const { return p.a - p.b; }
};
struct plus_mod
{
    int operator()(int x) const { return x % 7 + 1; }
};
struct odd
{
    bool operator()(int x) const { return x % 2 != 0; }
};
struct high
{
    bool operator()(int x) const { return x >= 3; }
};
struct ordered
{
    bool operator()(const P& p) const { return p.a < p.b; }
};
struct add2
{
    int operator()(int x, int y) const { return x + y; }
};
struct add_pi
{
    int operator()(const P& p, int y) const { return p.a * 2 - p.b + y; }
};
struct max3
{
    int operator()(int x, int y, int z) const
    {
        return std::max(x, std::max(y, z));
    }
};
struct flip_u
{
    U operator()(const U& u) const { return {u.b, u.a}; }
};

inline auto negate = lager::lenses::getset([](int x) { return -x; },
                                           [](int, int v) { return -v; });
inline auto swapped = lager::lenses::getset(
    [](const P& p) {
        return P{p.b, p.a};
    },
    [](P, P v) {
        return P{v.b, v.a};
    });
inline auto total = lager::lenses::getset([](const P& p) { return p.a + p.b; },
                                          [](P p, int v) {
                                              p.b = v - p.a;
                                              return p;
                                          });
inline auto swapped_u = lager::lenses::getset(
    [](const U& p) {
        return U{p.b, p.a};
    },
    [](U, U v) {
        return U{v.b, v.a};
    });
inline auto total_m =
    lager::lenses::getset([](const M& m) { return std::get<0>(m) + std::get<1>(m); },
                          [](M m, int v) {
                              return M{std::get<0>(m), v - std::get<0>(m)};
                          });

// ---- model ------------------------------------------------------------------

namespace check_class {
enum cls : unsigned
{
    isolation = 1,  // uncommitted writes are invisible
    root_values = 2, // roots and cursors after commit
    values      = 4, // derived readers after commit
    counts      = 8, // notifications
    in_watcher  = 16 // what watchers can see
};
}
using namespace check_class;

struct world;

struct mnode
{
    std::string what;
    std::vector<int> parents;
    unsigned mask = 0; // roots it depends on
    bool noeq     = false;
    bool writable = false;
    bool multi    = false; // several parents
    // derived nodes: value from the values of the parents
    std::function<val(const std::vector<val>&)> eval;
    // filters: whether the parents' values pass
    std::function<bool(const std::vector<val>&)> pass;
    // new values of the parents; nothing: the write is dropped
    std::function<std::optional<std::vector<val>>(const std::vector<val>&,
                                                  const val&)>
        put;
    // roots
    int root        = -1;
    bool automatic  = false;
    bool constant   = false;
    std::shared_ptr<int> sensed;

    val cur, pub;
    bool written   = false; // root was written (matters without equality)
    bool altered   = false; // its pending value differed since last commit
    bool unsettled = false; // created while its roots had pending writes
    bool uncertain = false; // filter that may have seen a transient input
};

struct snapshot
{
    std::vector<val> pub;
    std::vector<char> skip;  // not specified
    std::vector<int> lo, hi; // calls per watcher of the node
    unsigned mask = 0;       // roots that were published
};

struct any_handle
{
    int node = 0;
    int id   = 0;
    struct watcher
    {
        int id;
        int calls = 0;
        val last; // seen
        int acts = 0; // what it does when called
        bool replaced = false;
    };
    std::vector<std::unique_ptr<watcher>> watchers;
    bool lvalue = false; // written from a variable

    virtual ~any_handle()                                   = default;
    virtual val get() const                                 = 0;
    virtual void set(const val&)                            = 0;
    virtual void update(std::function<val(const val&)>)     = 0;
    virtual void watch(std::function<void(const val&)>)     = 0;
    virtual void bind(std::function<void(const val&)>)      = 0;
    virtual void nudge()                                    = 0;
    virtual bool writable() const                           = 0;
    virtual void derive(world&)                             = 0;
    virtual std::unique_ptr<any_handle> copy(bool reader) const = 0;
};

template <typename T, bool Cursor>
struct handle : any_handle
{
    using value_type = T;
    static constexpr bool is_cursor = Cursor;
    using type = std::conditional_t<Cursor, lager::cursor<T>, lager::reader<T>>;
    type h;

    handle(type h_, int n)
        : h{std::move(h_)}
    {
        node = n;
    }
    val get() const override { return enc(h.get()); }
    void set(const val& v) override
    {
        if constexpr (Cursor) {
            const auto x = as<T>(v);
            if (lvalue)
                h.set(x);
            else
                h.set(as<T>(v));
        }
    }
    void update(std::function<val(const val&)> fn) override
    {
        if constexpr (Cursor)
            h.update([&](const T& x) { return as<T>(fn(enc(x))); });
    }
    void watch(std::function<void(const val&)> fn) override
    {
        lager::watch(h, [fn](const T& x) { fn(enc(x)); });
    }
    void bind(std::function<void(const val&)> fn) override
    {
        h.bind([fn](const T& x) { fn(enc(x)); });
    }
    void nudge() override { h.nudge(); }
    bool writable() const override { return Cursor; }
    void derive(world& w) override;
    std::unique_ptr<any_handle> copy(bool as_reader) const override
    {
        std::unique_ptr<any_handle> r;
        if (as_reader || !Cursor)
            r = std::make_unique<handle<T, false>>(lager::reader<T>{h}, node);
        else
            r = std::make_unique<handle>(type{h}, node);
        return r;
    }
};

struct paction
{
    int kind;
    int v;
};
struct update_p
{
    P operator()(P p, paction a) const
    {
        switch (a.kind) {
        case 0:
            p.a = a.v;
            return p;
        case 1:
            p.b = a.v;
            return p;
        case 2:
            return {p.b, p.a};
        default:
            return p;
        }
    }
};

using root_t = std::variant<lager::state<int, lager::transactional_tag>,
                            lager::state<P, lager::transactional_tag>,
                            lager::state<Q, lager::transactional_tag>,
                            lager::state<U, lager::transactional_tag>,
                            lager::state<int, lager::automatic_tag>,
                            lager::state<P, lager::automatic_tag>,
                            lager::state<U, lager::automatic_tag>,
                            lager::sensor<int>,
                            lager::constant<P>,
                            lager::store<paction, P>>;
template <typename T>
struct is_state : std::false_type
{};
template <typename T, typename Tag>
struct is_state<lager::state<T, Tag>> : std::true_type
{};

void commit_roots(std::vector<root_t*> rs); // in graph_commit.cpp

struct options
{
    unsigned check          = 0;
    bool watcher_writes     = false; // pending writes from watchers
    bool watcher_auto       = false; // automatic writes from watchers
    bool watcher_reshapes   = false; // watchers derive, watch and drop
    unsigned derive_weight  = 4;
    unsigned write_weight   = 4;
    unsigned watch_weight   = 3;
    unsigned max_roots      = 3;
    bool only_cursors       = false;
};

struct world
{
    Case& c;
    options opt;
    std::vector<mnode> ns;
    std::vector<std::unique_ptr<root_t>> roots;
    std::vector<int> root_nodes;
    std::vector<std::unique_ptr<any_handle>> handles;
    int handle_ids = 0, watcher_ids = 0;

    // the running operation
    std::vector<snapshot> phases;
    std::size_t phase = 0;
    bool in_op        = false;
    bool binding      = false; // only the new watcher is called
    bool relaxed      = false; // watchers wrote: counts are not exact
    bool was_relaxed  = false;
    int depth         = 0; // of watcher calls
    unsigned pending_written = 0; // roots written by watchers
    // statistics
    int publications = 0, notified = 0, pending_writes = 0, multi_commits = 0;
    int diamonds = 0, filters = 0, max_height = 0, observed = 0, overlaps = 0;
    int noop_commits = 0, watcher_acts = 0, dropped_sources = 0, late = 0;
    int reshaped = 0, reshaped_drops = 0, reshaped_derives = 0;
    int composed_writes = 0, merged_writes = 0, stale_updates = 0;
    std::vector<int> heights;

    world(Case& c_, options o)
        : c{c_}
        , opt{o}
    {}

    // a failed check; only those of the property under test are reported
    template <typename... Ts>
    void expect(unsigned k, bool ok, const Ts&... xs)
    {
        if (ok || !(opt.check & k) || c.failed())
            return;
        std::ostringstream os;
        (os << ... << xs);
        c.note_failure(os.str());
    }
    void stop_if_failed()
    {
        if (c.failed())
            throw pbt::failure{""};
    }

    // ---- model evaluation
    std::vector<val> inputs(const mnode& n, bool pub) const
    {
        std::vector<val> r;
        for (auto p : n.parents)
            r.push_back(pub ? ns[p].pub : ns[p].cur);
        return r;
    }
    void refresh_cur()
    {
        for (auto& n : ns) {
            if (n.eval) {
                auto is = inputs(n, false);
                if (!n.pass || n.pass(is))
                    n.cur = n.eval(is);
                else
                    n.cur = n.pub;
            }
            if (n.cur != n.pub || (n.noeq && n.root >= 0 && n.written))
                n.altered = true;
            if (n.noeq && n.eval)
                for (auto p : n.parents)
                    n.altered |= ns[p].altered;
        }
    }
    bool pending(int root_node) const
    {
        auto& n = ns[root_node];
        return n.cur != n.pub || n.altered || n.written;
    }
    bool mask_pending(unsigned mask) const
    {
        for (auto r : root_nodes)
            if ((ns[r].mask & mask) && pending(r))
                return true;
        return false;
    }
    snapshot take() const
    {
        snapshot s;
        for (auto& n : ns) {
            s.pub.push_back(n.pub);
            s.skip.push_back(n.unsettled || n.uncertain);
        }
        s.lo.assign(ns.size(), 0);
        s.hi.assign(ns.size(), 0);
        return s;
    }

    // publishes the pending values of a set of roots
    void publish(unsigned mask)
    {
        std::vector<char> changed(ns.size()), fuzzy(ns.size());
        std::vector<char> was_altered(ns.size()), was_open(ns.size());
        for (std::size_t i = 0; i < ns.size(); ++i) {
            was_altered[i] = ns[i].altered;
            was_open[i]    = ns[i].unsettled || ns[i].uncertain;
        }
        bool any = false;
        for (std::size_t i = 0; i < ns.size(); ++i) {
            auto& n = ns[i];
            if (!(n.mask & mask))
                continue;
            if (n.root >= 0) {
                changed[i] = n.noeq ? n.written : n.cur != n.pub;
                n.pub      = n.cur;
                n.written  = false;
            } else {
                int nchanged = 0;
                for (auto p : n.parents) {
                    nchanged += changed[p] || fuzzy[p] || was_altered[p];
                    fuzzy[i] |= fuzzy[p];
                }
                // the input may pass through transient values while several
                // of its sources are being propagated
                if (nchanged > 1)
                    fuzzy[i] = 1;
                auto is = inputs(n, true);
                if (n.pass) {
                    bool up = false;
                    for (auto p : n.parents)
                        up |= ns[p].uncertain;
                    if (up) {
                        n.uncertain = true;
                        if (n.pass(is))
                            n.pub = n.eval(is);
                    } else if (n.pass(is)) {
                        bool moved = false;
                        for (auto p : n.parents)
                            moved |= changed[p];
                        if (moved) {
                            auto v      = n.eval(is);
                            changed[i]  = v != n.pub;
                            n.pub       = v;
                            n.uncertain = false;
                        } else if (fuzzy[i] && n.eval(is) != n.pub)
                            n.uncertain = true;
                    } else if (fuzzy[i])
                        n.uncertain = true;
                } else {
                    bool unc = false;
                    for (auto p : n.parents)
                        unc |= ns[p].uncertain;
                    n.uncertain = unc;
                    auto v      = n.eval(is);
                    if (n.noeq) {
                        for (auto p : n.parents)
                            changed[i] |= changed[p];
                    } else
                        changed[i] = v != n.pub;
                    n.pub = v;
                }
            }
            any |= changed[i];
        }
        for (std::size_t i = 0; i < ns.size(); ++i) {
            was_open[i] |= ns[i].unsettled || ns[i].uncertain;
            if (ns[i].mask & mask)
                ns[i].altered = false;
        }
        refresh_cur();
        for (auto& n : ns)
            if ((n.mask & mask) && n.unsettled && !mask_pending(n.mask))
                n.unsettled = false;
        auto s = take();
        for (std::size_t i = 0; i < ns.size(); ++i) {
            if (!(ns[i].mask & mask))
                continue;
            s.lo[i] = changed[i] && !was_open[i] && !s.skip[i];
            s.hi[i] = changed[i] || was_altered[i] || fuzzy[i] || was_open[i] ||
                      s.skip[i];
        }
        s.mask = mask;
        phases.push_back(s);
        publications += any;
    }

    // ---- writes in the model; returns the roots that publish
    void write_model(int i, const val& v)
    {
        auto& n = ns[i];
        if (n.root >= 0) {
            n.written |= true;
            n.cur = v;
            refresh_cur();
            if (n.automatic)
                publish(n.mask);
            return;
        }
        auto vs = n.put(inputs(n, false), v);
        if (!vs)
            return;
        auto parents = n.parents; // ns may not move, but be explicit
        for (std::size_t k = 0; k < parents.size(); ++k)
            write_model(parents[k], (*vs)[k]);
    }

    // roots a write through node i reaches
    unsigned reach(int i) const { return ns[i].mask; }

    // Committing one root of a node that merges it with another root that has
    // pending writes leaks those writes (a known finding), so the roots that
    // publish are closed under sharing a derived node.
    unsigned closure(unsigned mask) const
    {
        for (bool grown = true; grown;) {
            grown = false;
            for (auto& n : ns) {
                if (!(n.mask & mask))
                    continue;
                for (auto r : root_nodes) {
                    auto m = ns[r].mask;
                    if ((n.mask & m) && !(mask & m) &&
                        pending(r)) {
                        mask |= m;
                        grown = true;
                    }
                }
            }
        }
        return mask;
    }
    // whether a root reached by a write publishes next to pending ones
    bool leaks(unsigned mask) const
    {
        unsigned autos = 0, trans = 0;
        for (auto r : root_nodes)
            if (ns[r].mask & mask)
                (ns[r].automatic ? autos : trans) |= ns[r].mask;
        if (!autos)
            return false;
        for (auto& n : ns) {
            if (!(n.mask & autos))
                continue;
            if (n.mask & trans)
                return true;
            for (auto r : root_nodes)
                if ((ns[r].mask & n.mask) && !ns[r].automatic && pending(r))
                    return true;
        }
        return false;
    }

    // ---- checking
    void check_world(unsigned where, const char* when)
    {
        auto& s = phases[phase];
        for (auto& h : handles) {
            if (!h || h->node >= (int) s.pub.size() || s.skip[h->node])
                continue;
            auto got = h->get();
            auto& n  = ns[h->node];
            if (got == s.pub[h->node])
                continue;
            auto k = where ? where : (n.root >= 0 || n.writable)
                                         ? root_values | (n.root >= 0 ? 0u : unsigned(values))
                                         : unsigned(values);
            expect(k,
                   false,
                   when,
                   ", ",
                   n.what,
                   " (node ",
                   h->node,
                   ") returns ",
                   pbt::show(got),
                   " instead of ",
                   pbt::show(s.pub[h->node]));
        }
    }
    bool world_is(std::size_t k)
    {
        auto& s = phases[k];
        for (auto& h : handles)
            if (h && h->node < (int) s.pub.size() && !s.skip[h->node] &&
                h->get() != s.pub[h->node])
                return false;
        return true;
    }

    struct tally
    {
        std::vector<std::pair<any_handle::watcher*, int>> start;
    };

    void begin_op()
    {
        in_op = true;
        phases.clear();
        phase   = 0;
        relaxed = false;
        for (auto& h : handles)
            if (h)
                for (auto& w : h->watchers) {
                    w->calls    = 0;
                    w->replaced = false;
                }
    }

    void called(any_handle* h, any_handle::watcher* w, const val& v)
    {
        ++notified;
        ++w->calls;
        w->last = v;
        ++depth;
        if (!in_op) {
            expect(counts,
                   false,
                   "watcher of ",
                   ns[h->node].what,
                   " invoked outside of any operation");
        } else if (phases.empty()) {
            expect(isolation | counts,
                   false,
                   "watcher of ",
                   ns[h->node].what,
                   " (node ",
                   h->node,
                   ") invoked although nothing was published");
        } else {
            if (phases.size() > 1 && !world_is(phase))
                for (auto k = phase + 1; k < phases.size(); ++k)
                    if (world_is(k)) {
                        phase = k;
                        break;
                    }
            auto& s = phases[phase];
            if (h->node < (int) s.pub.size() && !s.skip[h->node])
                expect(counts,
                       v == s.pub[h->node],
                       "watcher of ",
                       ns[h->node].what,
                       " (node ",
                       h->node,
                       ") invoked with ",
                       pbt::show(v),
                       " while the published value is ",
                       pbt::show(s.pub[h->node]));
            // in registration order
            for (auto& o : h->watchers) {
                if (o.get() == w)
                    break;
                expect(counts,
                       relaxed || binding || o->calls >= w->calls,
                       "watchers of a handle invoked out of order");
            }
            ++observed;
            check_world(in_watcher, "inside of a watcher");
            if (w->acts && depth == 1 && !c.failed())
                act(h, w);
        }
        --depth;
    }

    void act(any_handle* self, any_handle::watcher* w);
    void reshape(any_handle* self, any_handle::watcher* w);

    void end_op(const char* what)
    {
        in_op = false;
        if (phases.empty())
            phases.push_back(take());
        phase        = phases.size() - 1;
        auto nothing = true;
        for (auto& s : phases)
            for (auto x : s.hi)
                nothing &= x == 0;
        check_world(nothing ? isolation | values | root_values : 0, what);
        for (auto& h : handles) {
            if (!h)
                continue;
            for (auto& w : h->watchers) {
                if (w->replaced)
                    continue;
                int lo = 0, hi = 0;
                for (auto& s : phases)
                    if (h->node < (int) s.lo.size()) {
                        lo += s.lo[h->node];
                        hi += s.hi[h->node];
                    }
                if (relaxed || was_relaxed)
                    lo = 0;
                if (relaxed || was_relaxed)
                    for (auto& s : phases) // may have been owed from before
                        hi += (s.mask & ns[h->node].mask) != 0;
                expect(hi == 0 ? counts | isolation : unsigned(counts),
                       w->calls >= lo && w->calls <= hi,
                       what,
                       ": watcher of ",
                       ns[h->node].what,
                       " (node ",
                       h->node,
                       ") was invoked ",
                       w->calls,
                       " times, expected ",
                       lo,
                       hi == lo ? "" : " or more",
                       ", the value is ",
                       pbt::show(ns[h->node].pub));
            }
        }
        was_relaxed |= relaxed;
        stop_if_failed();
    }

    // ---- operations
    int add_handle(std::unique_ptr<any_handle> h)
    {
        h->id = handle_ids++;
        handles.push_back(std::move(h));
        return static_cast<int>(handles.size()) - 1;
    }
    any_handle* pick(bool writable)
    {
        std::vector<any_handle*> hs;
        for (auto& h : handles)
            if (h && (!writable || is_cursor(*h)))
                hs.push_back(h.get());
        if (hs.empty())
            return nullptr;
        // prefer recent ones: deeper
        auto i = c.below(static_cast<std::uint32_t>(hs.size()));
        return hs[hs.size() - 1 - i];
    }
    bool is_cursor(const any_handle& h) const { return h.writable(); }
    val gen_value(int node)
    {
        val v = ns[node].pub;
        if (c.chance(1, 4) && !v.empty()) {
            // change only one part
            auto i = c.below(static_cast<std::uint32_t>(v.size()));
            v[i]   = c.small(9) - 2;
        } else
            for (auto& x : v)
                x = c.small(9) - 2;
        return v;
    }

    void add_root();
    void derive();
    void watch(any_handle* h, bool bind);
    void write(any_handle* h, bool update);
    void dispatch();
    void commit(unsigned mask);
    void run();
    void finish();
};

} // namespace graph
