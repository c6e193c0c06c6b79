// C27: store enhancers compose without changing what the store does.
//
// A generated script of dispatches (with effects and thunks that dispatch
// further), loop turns and commits runs on a store made with some combination
// of enhancers and on a minimal reference store, where a thunk is an action
// that changes nothing and whose effect is the thunk.
#pragma once
#include <cassert>

#include <lager/commit.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/store.hpp>

#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace c27 {

using pbt::Case;

struct item
{
    bool thunk     = false;
    bool unchanged = false;
    enum
    {
        none,
        noop,
        null,
        body,    // a function
        narrow,  // an effect declared for no dependencies
        chain    // a sequence of two
    } effect = none;
    std::vector<int> kids;
    int ret    = -1; // the kid whose future it returns
    bool then  = false;
    bool has_body() const { return effect >= body; }
};

struct op
{
    enum
    {
        dispatch,
        step,
        commit
    } kind;
    int id = -1;
};

struct script
{
    std::vector<item> items;
    std::vector<op> ops;
    bool manual = false;
    int thunks = 0, nested = 0, effects = 0;

    int gen(Case& c, int depth, bool thunks_ok, bool effects_ok, bool in_thunk)
    {
        auto id = static_cast<int>(items.size());
        items.emplace_back();
        auto i  = item{};
        i.thunk = thunks_ok && c.chance(1, 2);
        if (i.thunk)
            ++thunks;
        if (i.thunk && in_thunk)
            ++nested;
        i.unchanged = i.thunk || c.chance(1, 8);
        if (i.thunk)
            i.effect = decltype(i.effect)(1 + c.below(5));
        else if (effects_ok)
            i.effect = decltype(i.effect)(c.below(6));
        if (i.has_body()) {
            ++effects;
            while (depth > 0 && items.size() < 30 && i.kids.size() < 3 &&
                   c.more(1))
                i.kids.push_back(
                    gen(c, depth - 1, thunks_ok, effects_ok, i.thunk));
            if (!i.kids.empty() && c.flip())
                i.ret = static_cast<int>(c.below(i.kids.size()));
        }
        i.then    = c.chance(1, 2);
        items[id] = i;
        return id;
    }

    void gen_all(Case& c, bool transactional, bool thunks_ok, bool effects_ok)
    {
        manual = c.chance(1, 4);
        while (ops.size() < 16 && c.more(6)) {
            switch (c.below(5)) {
            case 3:
                ops.push_back({op::step, -1});
                break;
            case 4:
                if (transactional)
                    ops.push_back({op::commit, -1});
                break;
            default:
                ops.push_back({op::dispatch,
                               gen(c, 3, thunks_ok, effects_ok, false)});
            }
        }
        ops.push_back({op::step, -1});
        ops.push_back({op::commit, -1});
        ops.push_back({op::step, -1});
    }

    std::string describe(int id) const
    {
        auto& i = items[id];
        static const char* const names[] = {
            "", " noop", " null", " {", " narrow {", " chain {"};
        auto s = (i.thunk ? "thunk " : "action ") + std::to_string(id) +
                 (i.unchanged && !i.thunk ? " unchanged" : "") +
                 names[i.effect];
        for (auto k = 0u; k < i.kids.size(); ++k)
            s += std::string(k ? ", " : "") +
                 (i.ret == static_cast<int>(k) ? "return " : "") +
                 describe(i.kids[k]);
        if (i.has_body())
            s += "}";
        return s + (i.then ? ".then" : "");
    }
};

struct model
{
    std::vector<int> log;
    friend bool operator==(const model& a, const model& b)
    {
        return a.log == b.log;
    }
};

struct env;

struct action
{
    int id;
    env* e;
};

// the dependencies
struct da
{
    int v;
};
struct db
{
    int v;
};
struct dc
{
    int v;
};

struct app
{
    virtual ~app()                                = default;
    virtual lager::future dispatch(int id)        = 0;
    virtual model get()                           = 0;
    virtual void commit()                         = 0;
    virtual void watch(std::function<void(const model&)>) = 0;
};

// one run of a script
struct env
{
    const script& s;
    bool futures;
    // the values the dependencies must have (-1: not reachable)
    int want_a = -1, want_b = -1, want_c = -1;
    std::unique_ptr<app> the_app;
    std::vector<int> reduced, bodies, tails, dispatched;
    std::vector<std::vector<int>> shown; // what watchers got
    std::vector<std::vector<int>> at_step; // what the store showed
    std::vector<int> thens;
    std::vector<std::string> problems;
    std::vector<char> was_reduced, ran, tail_ran;
    int in_loop = 0;
    bool automatic;
    lager::queue_event_loop queue;

    env(const script& s_, bool futures_, bool automatic_)
        : s{s_}
        , futures{futures_}
        , thens(s_.items.size())
        , was_reduced(s_.items.size())
        , ran(s_.items.size())
        , tail_ran(s_.items.size())
        , automatic{automatic_}
    {}

    void problem(const std::string& p) { problems.push_back(p); }

    bool complete(int id) const
    {
        auto& i = s.items[id];
        if (!i.thunk && !was_reduced[id])
            return false;
        if (i.has_body() && !ran[id])
            return false;
        if (i.effect == item::chain && !tail_ran[id])
            return false;
        return i.ret < 0 || complete(i.kids[i.ret]);
    }

    lager::future dispatch(int id)
    {
        auto& i = s.items[id];
        dispatched.push_back(id);
        auto f = the_app->dispatch(id);
        if (!i.then)
            return f;
        return std::move(f).then([this, id] {
            ++thens[id];
            if (futures && !complete(id))
                problem("the future of " + s.describe(id) +
                        " completed too early");
            if (futures && !in_loop)
                problem("the continuation of " + s.describe(id) +
                        " ran outside of the loop");
        });
    }

    // a reader sees what the action did when its effect runs
    void check_published(int id)
    {
        auto& i = s.items[id];
        if (!automatic || i.unchanged)
            return;
        auto m = the_app->get();
        if (std::find(m.log.begin(), m.log.end(), id) == m.log.end())
            problem("the effect of " + s.describe(id) +
                    " ran before its model was published");
    }

    template <typename... Ds>
    void check_deps(const lager::context<action, lager::deps<Ds...>>& ctx,
                    int id)
    {
        check_dep<da, Ds...>(ctx, id, want_a);
        check_dep<db, Ds...>(ctx, id, want_b);
        check_dep<dc, Ds...>(ctx, id, want_c);
    }

    template <typename D, typename... Ds, typename Ctx>
    void check_dep(const Ctx& ctx, int id, int want)
    {
        if constexpr ((std::is_same_v<D, Ds> || ...))
            if (lager::get<D>(ctx).v != want)
                problem("the effect of " + s.describe(id) + " sees " +
                        std::to_string(lager::get<D>(ctx).v) +
                        " instead of the dependency " + std::to_string(want));
    }

    lager::future run(int id)
    {
        auto& i = s.items[id];
        bodies.push_back(id);
        if (ran[id]++)
            problem("the effect of " + s.describe(id) + " ran twice");
        if (!in_loop)
            problem("the effect of " + s.describe(id) +
                    " ran outside of the loop");
        check_published(id);
        auto r = lager::future{};
        for (auto k = 0u; k < i.kids.size(); ++k) {
            auto f = dispatch(i.kids[k]);
            if (i.ret == static_cast<int>(k))
                r = std::move(f);
        }
        return r;
    }

    void run_tail(int id)
    {
        tails.push_back(id);
        if (tail_ran[id]++)
            problem("the second effect of " + s.describe(id) + " ran twice");
        if (!ran[id])
            problem("the second effect of " + s.describe(id) +
                    " ran before the first");
    }
};

// the effect of an item, declared for some dependencies
template <typename Deps>
lager::effect<action, Deps> make_effect(env& e, int id)
{
    using effect_t = lager::effect<action, Deps>;
    using ctx_t    = lager::context<action, Deps>;
    auto& i        = e.s.items[id];
    auto body      = [&e, id](const ctx_t& ctx) -> lager::future {
        e.check_deps(ctx, id);
        return e.run(id);
    };
    switch (i.effect) {
    case item::none:
    case item::noop:
        return lager::noop;
    case item::null:
        return effect_t{};
    case item::body:
        if (i.ret < 0)
            return effect_t{[body](const ctx_t& ctx) { (void) body(ctx); }};
        return effect_t{body};
    case item::narrow: {
        auto narrow =
            lager::effect<action>{[&e, id](const lager::context<action>&) {
                return e.run(id);
            }};
        return narrow;
    }
    default: {
        auto tail = effect_t{[&e, id](const ctx_t& ctx) {
            e.check_deps(ctx, id);
            e.run_tail(id);
        }};
        return lager::sequence(effect_t{body}, tail);
    }
    }
}

// a reducer with effects declared for Needs
template <typename Needs>
struct reducer
{
    lager::result<model, action, Needs> operator()(model m, action a) const
    {
        auto& e = *a.e;
        auto& i = e.s.items[a.id];
        if (e.was_reduced[a.id]++)
            e.problem(e.s.describe(a.id) + " was reduced twice");
        // (in the reference store thunks are actions)
        if (!i.thunk)
            e.reduced.push_back(a.id);
        if (!i.unchanged)
            m.log.push_back(a.id);
        if (i.effect == item::none)
            return m;
        return {std::move(m), make_effect<Needs>(e, a.id)};
    }
};

// one without effects
struct plain_reducer
{
    model operator()(model m, action a) const
    {
        auto& e = *a.e;
        auto& i = e.s.items[a.id];
        if (e.was_reduced[a.id]++)
            e.problem(e.s.describe(a.id) + " was reduced twice");
        e.reduced.push_back(a.id);
        if (!i.unchanged)
            m.log.push_back(a.id);
        return m;
    }
};

// the default reducer calls this
inline model update(model m, action a)
{
    return plain_reducer{}(std::move(m), a);
}

// one that must have been replaced
struct wrong_reducer
{
    model operator()(model m, action a) const
    {
        a.e->problem("a replaced reducer was called");
        return m;
    }
};

// the loop of a run, of either kind
struct run_loop
{
    env* e;
    std::shared_ptr<lager::with_manual_event_loop> manual;

    template <typename Fn>
    void post(Fn&& fn)
    {
        auto f = std::function<void()>{
            [e = e, fn = std::decay_t<Fn>(std::forward<Fn>(fn))]() mutable {
                ++e->in_loop;
                std::move(fn)();
                --e->in_loop;
            }};
        if (manual)
            manual->post(std::move(f));
        else
            e->queue.post(std::move(f));
    }
    template <typename Fn>
    void async(Fn&&)
    {}
    void finish() {}
    void pause() {}
    void resume() {}
};

inline run_loop make_loop(env& e)
{
    return {&e,
            e.s.manual ? std::make_shared<lager::with_manual_event_loop>()
                       : nullptr};
}

template <typename Store, typename ThunkDeps, bool Thunk>
struct app_of final : app
{
    env& e;
    Store store;

    app_of(env& e_, Store s)
        : e{e_}
        , store{std::move(s)}
    {}

    lager::future dispatch(int id) override
    {
        auto& i = e.s.items[id];
        if constexpr (Thunk) {
            if (i.thunk) {
                using ctx_t = lager::context<action, ThunkDeps>;
                if (i.effect == item::body) {
                    auto run = [&e = e, id](const ctx_t& ctx) {
                        e.check_deps(ctx, id);
                        return e.run(id);
                    };
                    if (i.ret < 0)
                        return store.dispatch([run](const ctx_t& ctx) {
                            (void) run(ctx);
                        });
                    return store.dispatch(run);
                }
                return store.dispatch(make_effect<ThunkDeps>(e, id));
            }
        }
        return store.dispatch(action{id, &e});
    }
    model get() override { return store.get(); }
    void commit() override { lager::commit(store); }
    void watch(std::function<void(const model&)> f) override
    {
        lager::watch(store, std::move(f));
    }
};

template <typename ThunkDeps, bool Thunk, typename Store>
std::unique_ptr<app> hold(env& e, Store s)
{
    return std::make_unique<app_of<Store, ThunkDeps, Thunk>>(e, std::move(s));
}

struct dep_values
{
    int a1, b1, b2, c2;
};

struct config
{
    const char* name;
    bool transactional;
    bool futures;
    bool thunks;
    bool effects;
    // which dependencies win: 1 the first set, 2 the second, 0 none
    int a, b, c;
    std::unique_ptr<app> (*make)(env&, const dep_values&);
};

// the configurations, split to compile in parallel
std::vector<config> configs_a();
std::vector<config> configs_b();
std::vector<config> configs_c();
std::vector<config> configs_d();

} // namespace c27
