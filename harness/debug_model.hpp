// C18, C19: an application under a debugger, in lock step with a model of it.
#pragma once

#include <cassert>
#include <pbt.hpp>

#include <lager/context.hpp>
#include <lager/debug/debugger.hpp>
#include <lager/debug/tree_debugger.hpp>
#include <lager/effect.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <typeinfo>
#include <vector>

namespace dm {

using str = std::string;

// The application
struct act
{
    int id = -1;
    friend bool operator==(act a, act b) { return a.id == b.id; }
};
struct app
{
    int n = 0;
    std::vector<int> log;
    friend bool operator==(const app& a, const app& b) { return a.n == b.n && a.log == b.log; }
    friend bool operator!=(const app& a, const app& b) { return !(a == b); }
};
inline str show_v(const app& m)
{
    auto s = std::to_string(m.n) + "[";
    for (auto x : m.log)
        s += " " + std::to_string(x);
    return s + "]";
}
// what each action does
struct plan
{
    int add;
    std::vector<std::vector<int>> effects; // children that each dispatches
    bool future; // the effect waits for its children
    bool idle;   // does not change the model
};
using plans = std::vector<plan>;

inline app fold(const plans& ps, app m, act a)
{
    auto& p = ps[a.id];
    if (p.idle)
        return m;
    m.n = static_cast<int>((m.n * 3ll + p.add + m.n % 7) % 100003);
    m.log.push_back(a.id);
    return m;
}

inline int gen_plan(pbt::Case& c, plans& ps, int depth, bool futures)
{
    auto id = static_cast<int>(ps.size());
    ps.push_back({static_cast<int>(c.below(50)), {}, futures && c.flip(), c.chance(1, 8)});
    auto k = depth > 0 ? c.below(3) : 0;
    for (std::size_t i = 0; i < k; ++i) {
        auto children = std::vector<int>{};
        while (children.size() < 2 && ps.size() < 40 && c.more(1))
            children.push_back(gen_plan(c, ps, depth - 1, futures));
        ps[id].effects.push_back(children);
    }
    return id;
}

// A loop that is run by hand and notes down what it is asked
struct hand_loop
{
    struct state
    {
        std::deque<std::function<void()>> queue;
        std::vector<str>* trace;
    };
    std::shared_ptr<state> s;
    void post(std::function<void()> f) { s->queue.push_back(std::move(f)); }
    void async(std::function<void()>) { s->trace->push_back("async"); }
    void finish() { s->trace->push_back("finish"); }
    void pause() { s->trace->push_back("pause"); }
    void resume() { s->trace->push_back("resume"); }
    void run(int max = -1)
    {
        while (!s->queue.empty() && max-- != 0) {
            auto f = std::move(s->queue.front());
            s->queue.pop_front();
            f();
        }
    }
};
inline hand_loop make_loop(std::vector<str>& trace)
{
    auto s   = std::make_shared<hand_loop::state>();
    s->trace = &trace;
    return {s};
}

// The effects and the reducer of the application, noting what they do
template <typename Action, typename Deps>
lager::effect<Action, Deps>
effect_of(const plans& ps, std::vector<str>& trace, int id, std::size_t i)
{
    auto body = [&ps, &trace, id, i](auto& ctx) {
        trace.push_back("effect " + std::to_string(id) + "." + std::to_string(i));
        auto f = lager::future{};
        for (auto child : ps[id].effects[i])
            f = std::move(f).also(ctx.dispatch(act{child}));
        return f;
    };
    if (ps[id].future)
        return [body](const lager::context<Action, Deps>& ctx) { return body(ctx); };
    else
        return [body](const lager::context<Action, Deps>& ctx) { body(ctx); };
}

struct env
{
    int tag;
};
using env_deps = lager::deps<env&>;

// with effects: a reducer that returns results; without: it returns models
inline auto reducer_with_effects(const plans& ps, std::vector<str>& trace)
{
    return [&ps, &trace](app m, act a) -> lager::result<app, act, env_deps> {
        trace.push_back("reduce " + std::to_string(a.id) + " on " + show_v(m));
        auto r  = fold(ps, m, a);
        auto& p = ps[a.id];
        if (p.effects.empty())
            return r;
        auto e0 = effect_of<act, env_deps>(ps, trace, a.id, 0);
        if (p.effects.size() == 1)
            return {r, e0};
        return {r, lager::sequence(e0, effect_of<act, lager::deps<>>(ps, trace, a.id, 1))};
    };
}
inline auto reducer_without_effects(const plans& ps, std::vector<str>& trace)
{
    return [&ps, &trace](app m, act a) -> app {
        trace.push_back("reduce " + std::to_string(a.id) + " on " + show_v(m));
        return fold(ps, m, a);
    };
}

// A server that keeps what the debugger gives it
template <typename Debugger>
struct handle
{
    lager::context<typename Debugger::action> ctx;
    std::optional<lager::reader<typename Debugger::model>> reader;
    template <typename Context, typename Reader>
    void init(Context&& c, Reader&& r)
    {
        ctx    = c;
        reader = lager::reader<typename Debugger::model>(std::forward<Reader>(r));
    }
};
// a server asked to show the model, D::view(server, model)
template <typename Fn>
struct viewer
{
    Fn fn;
    int times = 0;
    template <typename Model>
    void view(const Model& m)
    {
        ++times;
        fn(m);
    }
};
template <typename D, typename Fn>
int shows(const typename D::model& m, Fn fn)
{
    auto v = viewer<Fn>{std::move(fn)};
    D::view(v, m);
    return v.times;
}

struct server
{
    std::shared_ptr<void> last;
    const std::type_info* type = nullptr;
    std::vector<std::function<void()>> cleanup;
    template <typename Debugger>
    std::shared_ptr<handle<Debugger>> make(Debugger)
    {
        auto h = std::make_shared<handle<Debugger>>();
        last   = h;
        type   = &typeid(Debugger);
        cleanup.push_back([h] { // they refer to each other
            h->ctx = {};
            h->reader.reset();
        });
        return h;
    }
    template <typename Debugger>
    std::shared_ptr<handle<Debugger>> get()
    {
        if (*type != typeid(Debugger)) {
            std::fprintf(stderr, "the debugger is of another type\n");
            std::abort();
        }
        return std::static_pointer_cast<handle<Debugger>>(last);
    }
    ~server()
    {
        for (auto& f : cleanup)
            f();
    }
};

// What the debugger should do, driven by the same sequence of posts.
// Memory is the record of steps: linear or a tree.
struct event
{
    enum kind_t
    {
        action,
        go,
        undo,
        redo,
        pause,
        resume
    } kind;
    int id = -1; // action, or position to go to
};

template <typename Memory>
struct oracle
{
    const plans& ps;
    bool with_effects;
    Memory mem;
    bool paused = false;
    std::vector<int> pending;
    std::vector<str> trace;

    struct item
    {
        std::optional<event> reduce;
        std::vector<std::function<void()>> effects;
    };
    std::deque<item> queue;

    void post(event e) { queue.push_back({e, {}}); }

    void apply(int id, std::vector<std::function<void()>>& effects)
    {
        trace.push_back("reduce " + std::to_string(id) + " on " + show_v(mem.current()));
        mem.act(id, fold(ps, mem.current(), act{id}));
        if (with_effects)
            for (std::size_t i = 0; i < ps[id].effects.size(); ++i)
                effects.push_back([this, id, i] {
                    trace.push_back("effect " + std::to_string(id) + "." + std::to_string(i));
                    for (auto child : ps[id].effects[i])
                        post({event::action, child});
                });
    }
    void step()
    {
        auto x = std::move(queue.front());
        queue.pop_front();
        if (!x.reduce) {
            for (auto& e : x.effects)
                e();
            return;
        }
        std::vector<std::function<void()>> effects;
        auto e = *x.reduce;
        switch (e.kind) {
        case event::action:
            if (paused)
                pending.push_back(e.id);
            else
                apply(e.id, effects);
            break;
        case event::go: mem.go(e.id); break;
        case event::undo: mem.undo(); break;
        case event::redo: mem.redo(); break;
        case event::pause:
            paused = true;
            effects.push_back([this] { trace.push_back("pause"); });
            break;
        case event::resume: {
            paused = false;
            effects.push_back([this] { trace.push_back("resume"); });
            auto p = std::move(pending);
            pending.clear();
            for (auto id : p)
                apply(id, effects);
            break;
        }
        }
        queue.push_back({std::nullopt, std::move(effects)});
    }
    void run()
    {
        while (!queue.empty())
            step();
    }
};

// The same application with and without a debugger
template <typename Store>
struct observed
{
    Store store;
    lager::reader<app> model;
    lager::reader<int> number;
    lager::reader<int> parity;
    observed(Store s, std::vector<str>& trace)
        : store{std::move(s)}
        , model{store.map([](const auto& m) -> app {
            using lager::unwrap;
            return unwrap(m);
        })}
        , number{model[&app::n]}
        , parity{store.map([](const auto& m) {
            using lager::unwrap;
            const app& x = unwrap(m);
            return x.n % 2;
        })}
    {
        lager::watch(model, [&](const app& m) { trace.push_back("model " + show_v(m)); });
        lager::watch(number, [&](int n) { trace.push_back("number " + std::to_string(n)); });
        lager::watch(parity, [&](int n) { trace.push_back("parity " + std::to_string(n)); });
    }
    observed(const observed&) = delete;
};

template <typename Tag, typename Enhancer>
void transparency_(pbt::Case& c, Enhancer enhancer)
{
    plans ps;
    ps.reserve(100000);
    std::vector<str> trace_a, trace_b;
    auto e      = env{1};
    auto loop_a = make_loop(trace_a);
    auto loop_b = make_loop(trace_b);
    auto init   = app{static_cast<int>(c.below(10)), {}};
    auto srv    = server{};
    auto deps   = lager::with_deps(std::ref(e));
    auto store  = [&](auto& trace, auto& loop, auto more) {
        return lager::make_store<act, Tag>(init,
                                           loop,
                                           deps,
                                           lager::with_futures,
                                           lager::with_reducer(reducer_with_effects(ps, trace)),
                                           more);
    };
    auto a_ = store(trace_a, loop_a, [](auto next) { return next; });
    auto b_ = store(trace_b, loop_b, enhancer(srv));
    auto a  = observed<decltype(a_)>{std::move(a_), trace_a};
    auto b  = observed<decltype(b_)>{std::move(b_), trace_b};
    auto acts = 0, effects = 0;
    auto compare = [&] {
        P_EQ(show_v(b.model.get()), show_v(a.model.get()), "model");
        P_EQ(b.number.get(), a.number.get(), "number");
        P_EQ(b.parity.get(), a.parity.get(), "parity");
        P_EQ(trace_b, trace_a, "what happened");
    };
    while (c.more(8) && ps.size() < 60) {
        auto id = gen_plan(c, ps, 2, true);
        c.log("dispatch", id, "effects:", ps[id].effects.size());
        ++acts;
        effects += static_cast<int>(ps[id].effects.size());
        auto again = c.flip();
        auto send  = [&](auto& w, auto& trace) {
            w.store.dispatch(act{id}).then([&trace, id] { trace.push_back("done " + std::to_string(id)); });
            if (again)
                w.store.dispatch(act{id}).then([] {});
        };
        send(a, trace_a);
        send(b, trace_b);
        if (c.chance(1, 3))
            continue;
        loop_a.run();
        loop_b.run();
        compare();
        if (std::is_same_v<Tag, lager::transactional_tag> && c.flip()) {
            c.log("commit");
            lager::commit(a.store);
            lager::commit(b.store);
            compare();
        }
    }
    loop_a.run();
    loop_b.run();
    compare();
    if (acts >= 3 && effects >= 1)
        c.nontrivial();
}
template <typename Enhancer>
void transparency(pbt::Case& c, Enhancer enhancer)
{
    if (c.chance(2, 3))
        transparency_<lager::automatic_tag>(c, enhancer);
    else
        transparency_<lager::transactional_tag>(c, enhancer);
}
} // namespace dm
