// Generates programs of actions and effects, runs them on a real store and
// records what happened.  The properties' harnesses judge the record.
#pragma once

#include <pbt.hpp>

#include <lager/commit.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/store.hpp>

#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace sx {

using pbt::Case;

// ---- programs ---------------------------------------------------------------

// One function of an effect: dispatches, and maybe a future as its result.
struct body
{
    std::vector<int> dispatches; // ids of the actions it dispatches
    int returns = -1;            // index in dispatches whose future it returns
    bool join   = false;         // returns the join of all of its futures
    int inert   = 0;             // 1: lager::noop, 2: a null effect
    bool posts  = false; // posts a function through the context's loop
};

struct plan
{
    int id = 0;
    enum kind_t
    {
        none,    // reducer returns a result without effect
        noop,    // reducer returns lager::noop
        null,    // reducer returns a default constructed effect
        single,  // one body
        sequence // sequenced bodies
    } kind = none;
    std::vector<body> bodies;
    bool grouped_right = false; // sequence(a, sequence(b, c))
    bool unchanged     = false; // the reducer returns an equal model
    // attach a continuation to the dispatch; it dispatches these
    bool then = false;
    std::vector<int> then_dispatches;
    int then_returns = -1;  // continuation returns the future of this dispatch
    bool late        = false; // attach after everything queued has run
};

struct program
{
    std::vector<plan> plans; // indexed by id
    std::vector<std::vector<int>> watch_dispatches; // per notification number

    int gen(Case& c, int depth)
    {
        auto id = static_cast<int>(plans.size());
        plans.emplace_back();
        auto p = plan{};
        p.id   = id;
        p.unchanged = c.chance(1, 8);
        if (depth > 0 && plans.size() < 40) {
            switch (c.below(7)) {
            case 0:
            case 1:
                p.kind = plan::none;
                break;
            case 2:
                p.kind = plan::noop;
                break;
            case 6:
                p.kind = plan::null;
                break;
            case 3:
            case 4:
                p.kind = plan::single;
                p.bodies.push_back(gen_body(c, depth - 1));
                break;
            default:
                p.kind = plan::sequence;
                for (int n = 2 + c.small(2); n > 0; --n) {
                    auto inert = c.chance(1, 6) ? 1 + c.small(2) : 0;
                    p.bodies.push_back(inert ? body{}
                                             : gen_body(c, depth - 1));
                    p.bodies.back().inert = inert;
                }
                p.grouped_right = c.flip();
            }
            if (c.chance(1, 3)) {
                p.then = true;
                p.late = c.chance(1, 4);
                while (p.then_dispatches.size() < 2 && c.more(1))
                    p.then_dispatches.push_back(gen(c, depth - 1));
                if (!p.then_dispatches.empty() && c.flip())
                    p.then_returns =
                        static_cast<int>(c.below(p.then_dispatches.size()));
            }
        }
        plans[id] = p;
        return id;
    }

    body gen_body(Case& c, int depth)
    {
        auto b  = body{};
        b.posts = c.chance(1, 6);
        while (b.dispatches.size() < 3 && c.more(1))
            b.dispatches.push_back(gen(c, depth));
        if (c.chance(1, 64))
            for (int n = 1 << c.small(7); n; --n)
                b.dispatches.push_back(gen(c, 0));
        if (!b.dispatches.empty() && c.chance(2, 3))
            b.returns = static_cast<int>(c.below(b.dispatches.size()));
        b.join = b.returns >= 0 && b.dispatches.size() > 1 && c.flip();
        return b;
    }

    std::string describe(int id) const
    {
        auto& p = plans[id];
        auto s  = "#" + std::to_string(id);
        if (p.unchanged)
            s += "=";
        if (p.kind == plan::noop)
            s += "noop";
        if (p.kind == plan::null)
            s += "null";
        for (auto& b : p.bodies) {
            s += "{";
            if (b.inert)
                s += b.inert == 1 ? "noop" : "null";
            if (b.posts)
                s += "post ";
            for (std::size_t i = 0; i < b.dispatches.size(); ++i)
                s += (i ? " " : "") + describe(b.dispatches[i]);
            if (b.join)
                s += " ret all";
            else if (b.returns >= 0)
                s += " ret " + std::to_string(b.returns);
            s += "}";
        }
        if (p.then) {
            s += p.late ? ".late_then[" : ".then[";
            for (std::size_t i = 0; i < p.then_dispatches.size(); ++i)
                s += (i ? " " : "") + describe(p.then_dispatches[i]);
            if (p.then_returns >= 0)
                s += " ret " + std::to_string(p.then_returns);
            s += "]";
        }
        return s;
    }
};

// ---- record -----------------------------------------------------------------

struct event
{
    enum kind_t
    {
        dispatch,    // id was dispatched
        reduce,      // reducer ran for id
        effect,      // body k of id's effect ran
        then_run,    // continuation of id's dispatch ran
        notify,      // store watcher called
        settled      // nothing left to run
    } kind;
    int id      = -1;
    int k       = 0;
    bool in_loop = false;
    // whether the published model contained the action (effect/then_run)
    bool published   = false;
    bool notified    = true; // watchers know the published model
    std::size_t size = 0; // size of the published model
    bool prefix      = true;
    bool ok          = true; // context gives access to the dependency and loop
};

struct model
{
    std::vector<int> log;
    std::uint32_t hash = 17; // order-sensitive
    bool operator==(const model& o) const
    {
        return log == o.log && hash == o.hash;
    }
};

inline model apply(model m, int id)
{
    m.log.push_back(id);
    m.hash = m.hash * 31 + static_cast<std::uint32_t>(id) + 7;
    return m;
}

struct action
{
    int id;
};

// everything an effect can reach; passed as a dependency of the store
struct env
{
    Case* c         = nullptr;
    program* prog   = nullptr;
    int in_loop     = 0;
    int dependency  = 4711;
    bool futures    = false;
    std::map<int, int> thens;
    std::vector<std::string> problems; // with continuations
    std::vector<event> events;
    std::vector<int> reduced; // ids in the order the reducer saw them
    std::vector<std::function<void()>> late;
    std::function<const model&()> published;
    std::size_t notified = 1; // size of the model of the last notification
    std::vector<int> posted, posted_ran;

    bool contains(int id) const
    {
        auto& p = prog->plans[id];
        if (p.unchanged) // has no trace in the model: judge what came before
            return true;
        auto& l = published().log;
        return std::find(l.begin(), l.end(), id) != l.end();
    }
    event& record(event::kind_t k, int id, int n = 0)
    {
        event e;
        e.kind    = k;
        e.id      = id;
        e.k       = n;
        e.in_loop = in_loop > 0;
        if (k == event::effect || k == event::then_run || k == event::notify) {
            e.size      = published().log.size();
            e.published = id < 0 || contains(id);
            e.notified  = e.size == notified;
        }
        events.push_back(e);
        return events.back();
    }
};

using deps_t   = lager::deps<env&>;
using ctx_t    = lager::context<action, deps_t>;
using root_ptr = std::shared_ptr<std::optional<ctx_t>>;
using effect_t = lager::effect<action, deps_t>;
using result_t = lager::result<model, action, deps_t>;

// dispatches `id` from a context or store and attaches its continuation
template <typename Dispatcher>
lager::future dispatch(env& e, Dispatcher&& d, int id)
{
    auto& p = e.prog->plans[id];
    e.record(event::dispatch, id);
    auto f = d.dispatch(action{id});
    if (!p.then)
        return f;
    auto continuation = [&e, &d, id]() -> lager::future {
        e.record(event::then_run, id);
        ++e.thens[id];
        auto& p  = e.prog->plans[id];
        auto res = lager::future{};
        for (std::size_t i = 0; i < p.then_dispatches.size(); ++i) {
            auto g = dispatch(e, d, p.then_dispatches[i]);
            if (p.then_returns == static_cast<int>(i))
                res = std::move(g);
        }
        return res;
    };
    if (p.late) {
        e.late.push_back([f = std::move(f), continuation]() mutable {
            (void) std::move(f).then(continuation);
        });
        return {};
    }
    auto r = std::move(f).then(continuation);
    if (!e.futures && e.thens[id] != 1)
        e.problems.push_back("continuation of an empty future not run at once");
    return r;
}

inline effect_t make_body(env& e, root_ptr root, int id, int k)
{
    auto run = [&e, root, id, k](const ctx_t& ctx) -> lager::future {
        auto& ev = e.record(event::effect, id, k);
        ev.ok = &ctx.get<env&>() == &e && ctx.get<env&>().dependency == 4711;
        auto& b  = e.prog->plans[id].bodies[k];
        auto res = lager::future{};
        if (b.posts) {
            auto n = static_cast<int>(e.posted.size());
            e.posted.push_back(n);
            ctx.loop().post([&e, n] {
                e.posted_ran.push_back(n);
                if (!e.in_loop)
                    e.problems.push_back("function posted from an effect ran "
                                         "outside of the loop");
            });
        }
        for (std::size_t i = 0; i < b.dispatches.size(); ++i) {
            // the continuation outlives `ctx`, so it uses the root context
            auto f = dispatch(e, **root, b.dispatches[i]);
            if (b.join)
                res = i == 0 ? std::move(f) : std::move(res).also(std::move(f));
            else if (b.returns == static_cast<int>(i))
                res = std::move(f);
        }
        return res;
    };
    auto& b = e.prog->plans[id].bodies[k];
    if (b.inert == 1)
        return lager::noop;
    if (b.inert == 2)
        return effect_t{};
    if (b.returns < 0)
        return effect_t{[run](const ctx_t& ctx) { (void) run(ctx); }};
    return effect_t{run};
}

inline effect_t make_effect(env& e, root_ptr root, int id)
{
    auto& p = e.prog->plans[id];
    switch (p.kind) {
    case plan::none:
    case plan::noop:
        return lager::noop;
    case plan::null:
        return effect_t{};
    case plan::single:
        return make_body(e, root, id, 0);
    default: {
        auto bs = std::vector<effect_t>{};
        for (std::size_t k = 0; k < p.bodies.size(); ++k)
            bs.push_back(make_body(e, root, id, static_cast<int>(k)));
        if (bs.size() == 2)
            return lager::sequence(bs[0], bs[1]);
        return p.grouped_right
                   ? effect_t{lager::sequence(bs[0],
                                              lager::sequence(bs[1], bs[2]))}
                   : effect_t{lager::sequence(bs[0], bs[1], bs[2])};
    }
    }
}

// ---- loops ------------------------------------------------------------------

// Wraps a loop to know when we are inside of it.
template <typename Loop>
struct probe_loop
{
    Loop loop;
    env* e;

    template <typename Fn>
    void post(Fn&& fn)
    {
        loop.post([e = e, fn = std::decay_t<Fn>(std::forward<Fn>(fn))]() mutable {
            struct guard
            {
                env* e;
                guard(env* e_)
                    : e{e_}
                {
                    ++e->in_loop;
                }
                ~guard() { --e->in_loop; }
            } g{e};
            std::move(fn)();
        });
    }
    template <typename Fn>
    void async(Fn&& fn)
    {
        loop.async(std::forward<Fn>(fn));
    }
    void finish() { loop.finish(); }
    void pause() { loop.pause(); }
    void resume() { loop.resume(); }
};

struct manual_kind
{
    static constexpr auto name    = "manual";
    static constexpr bool stepped = false;
    lager::with_manual_event_loop make() { return {}; }
    void step() {}
};
struct queue_kind
{
    static constexpr auto name    = "queue";
    static constexpr bool stepped = true;
    lager::queue_event_loop q;
    lager::with_queue_event_loop make() { return {q}; }
    void step() { q.step(); }
};
struct safe_queue_kind
{
    static constexpr auto name    = "safe_queue";
    static constexpr bool stepped = true;
    lager::safe_queue_event_loop q;
    lager::with_safe_queue_event_loop make() { return {q}; }
    void step() { q.step(); }
};

template <typename Kind, bool Transactional, bool Futures, bool Effects>
struct config
{
    using kind_t                        = Kind;
    static constexpr bool transactional = Transactional;
    static constexpr bool futures       = Futures;
    static constexpr bool effects       = Effects;
};

// ---- execution --------------------------------------------------------------

struct outcome
{
    env e;
    program prog;
    model final_model;
    model initial;
    std::vector<std::string> problems; // publication problems seen on the way
    bool transactional = false, futures = false, effects = false;
};

template <typename Cfg>
void run(Case& c, outcome& o)
{
    using kind_t    = typename Cfg::kind_t;
    o.transactional = Cfg::transactional;
    o.futures       = Cfg::futures;
    o.effects       = Cfg::effects;
    auto& e         = o.e;
    e.c             = &c;
    e.prog          = &o.prog;
    e.futures       = Cfg::futures;
    c.log("store on ",
          kind_t::name,
          Cfg::transactional ? " transactional" : " automatic",
          Cfg::futures ? " futures" : "",
          Cfg::effects ? " effects" : "");

    // watchers dispatch on their first notifications
    while (o.prog.watch_dispatches.size() < 4 && c.more(1)) {
        auto v = std::vector<int>{};
        if (c.flip())
            v.push_back(o.prog.gen(c, 1));
        o.prog.watch_dispatches.push_back(v);
        for (auto id : v)
            c.log("watcher call ",
                  o.prog.watch_dispatches.size(),
                  " dispatches ",
                  o.prog.describe(id));
    }

    o.initial.log = {-5};
    auto kind     = kind_t{};
    auto root     = std::make_shared<std::optional<ctx_t>>();
    auto reducer  = [&e, root](model m, action a) {
        e.record(event::reduce, a.id);
        e.reduced.push_back(a.id);
        auto& p = e.prog->plans[a.id];
        auto m2 = p.unchanged ? m : apply(std::move(m), a.id);
        if constexpr (Cfg::effects) {
            if (p.kind == plan::none)
                return result_t{std::move(m2)};
            return result_t{std::move(m2), make_effect(e, root, a.id)};
        } else
            return m2;
    };
    using tag_t = std::conditional_t<Cfg::transactional,
                                     lager::transactional_tag,
                                     lager::automatic_tag>;
    auto loop  = probe_loop<decltype(kind.make())>{kind.make(), &e};
    auto store = [&] {
        if constexpr (Cfg::futures)
            return lager::make_store<action, tag_t>(
                o.initial,
                std::move(loop),
                lager::with_futures,
                lager::with_deps(std::ref(e)),
                lager::with_reducer(reducer));
        else
            return lager::make_store<action, tag_t>(
                o.initial,
                std::move(loop),
                lager::with_deps(std::ref(e)),
                lager::with_reducer(reducer));
    }();
    root->emplace(store);
    e.published = [&]() -> const model& { return store.get(); };

    std::size_t notifications = 0, last_size = 0;
    auto sizes = lager::reader<std::size_t>{
        store.map([](const model& m) { return m.log.size(); })};
    auto fold = [&](std::size_t) {
        auto m = o.initial;
        for (auto id : e.reduced)
            if (!o.prog.plans[id].unchanged)
                m = apply(std::move(m), id);
        return m;
    };
    lager::watch(store, [&](const model& m) {
        auto full = fold(0);
        auto& ev  = e.record(event::notify, -1);
        ev.size   = m.log.size();
        ev.prefix = m.log.size() <= full.log.size() &&
                    std::equal(m.log.begin(), m.log.end(), full.log.begin()) &&
                    m.log.size() > last_size && m == store.get();
        last_size = m.log.size();
        e.notified = last_size;
        if (notifications < o.prog.watch_dispatches.size()) {
            auto ids = o.prog.watch_dispatches[notifications++];
            for (auto id : ids)
                dispatch(e, **root, id);
        } else
            ++notifications;
    });

    auto committed = o.initial;
    auto settle    = [&] {
        for (int i = 0; i < 2000; ++i) {
            if constexpr (kind_t::stepped)
                kind.step();
            if (e.late.empty())
                break;
            auto late = std::move(e.late);
            e.late.clear();
            for (auto& f : late)
                f();
        }
    };
    // what readers must show when the loop has nothing left to run
    auto check_published = [&](bool after_commit) {
        (void) after_commit;
        auto want = Cfg::transactional ? committed : fold(0);
        if (!(store.get() == want))
            o.problems.push_back(
                "store shows " + pbt::show(store.get().log) + " instead of " +
                pbt::show(want.log));
        if (sizes.get() != want.log.size())
            o.problems.push_back("derived reader shows " +
                                 std::to_string(sizes.get()) + " instead of " +
                                 std::to_string(want.log.size()));
    };
    auto do_commit = [&] {
        // watchers may dispatch during the commit; that is not committed
        auto want = fold(0);
        lager::commit(store);
        committed = want;
        if (!e.in_loop)
            check_published(true);
    };

    int ops = 0;
    while (ops < 14 && c.more(5)) {
        ++ops;
        switch (c.below(Cfg::transactional ? 4 : 3)) {
        case 0:
        case 1: {
            auto id = o.prog.gen(c, 3);
            c.log("dispatch ", o.prog.describe(id));
            dispatch(e, store, id);
            if (c.chance(1, 32)) {
                auto n = 1 << c.small(7);
                c.log("dispatch ", n, " more");
                for (; n; --n)
                    dispatch(e, store, o.prog.gen(c, 0));
            }
            if (!kind_t::stepped)
                check_published(false);
            break;
        }
        case 2:
            c.log("run the loop");
            settle();
            check_published(false);
            break;
        case 3:
            if constexpr (Cfg::transactional) {
                c.log("commit");
                do_commit();
            }
        }
    }
    for (int i = 0; i < 100; ++i) {
        settle();
        check_published(false);
        if constexpr (Cfg::transactional) {
            // watchers may dispatch again from a commit
            auto n = e.events.size();
            do_commit();
            settle();
            if (n == e.events.size())
                break;
        } else if (e.late.empty())
            break;
    }
    if constexpr (Cfg::transactional)
        do_commit();
    settle();
    if constexpr (Cfg::transactional)
        do_commit();
    e.record(event::settled, -1);
    o.final_model = store.get();
    e.published   = {};
    c.label("reducers with effects", Cfg::effects && e.reduced.size() > 1);
    c.label("watcher dispatched",
            notifications > 0 && !o.prog.watch_dispatches.empty() &&
                !o.prog.watch_dispatches[0].empty());
}

// runs one of the configurations
template <typename Kind>
void run_kind(Case& c, outcome& o, unsigned which)
{
    switch (which) {
    case 0:
        return run<config<Kind, false, true, true>>(c, o);
    case 1:
        return run<config<Kind, false, false, true>>(c, o);
    case 2:
        return run<config<Kind, true, true, true>>(c, o);
    case 3:
        return run<config<Kind, true, false, true>>(c, o);
    case 4:
        return run<config<Kind, false, true, false>>(c, o);
    case 5:
        return run<config<Kind, false, false, false>>(c, o);
    case 6:
        return run<config<Kind, true, true, false>>(c, o);
    default:
        return run<config<Kind, true, false, false>>(c, o);
    }
}

void run_manual(Case& c, outcome& o, unsigned which);
void run_queue(Case& c, outcome& o, unsigned which);
void run_safe_queue(Case& c, outcome& o, unsigned which);

inline void run_any(Case& c, outcome& o, bool only_effects, bool only_futures)
{
    auto loop  = c.below(3);
    auto which = only_futures   ? c.below(2) * 2
                 : only_effects ? c.below(4)
                                : c.below(8);
    switch (loop) {
    case 0:
        return run_manual(c, o, which);
    case 1:
        return run_queue(c, o, which);
    default:
        return run_safe_queue(c, o, which);
    }
}

} // namespace sx
