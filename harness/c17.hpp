// C17: a store on a loop that takes work from several threads, against the
// record of who dispatched what.
#pragma once
#include <pbt.hpp>

#include <lager/commit.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace c17 {

using pbt::Case;

// how much threads are delayed around locks (c17_sched.cpp)
extern std::atomic<int> delays;
struct delayed
{
    delayed(int level) { delays = level; }
    ~delayed() { delays = 0; }
};

struct act
{
    int id;
};
using model_t = std::vector<int>;

// what happens with one dispatched action
struct plan
{
    int by = -1; // thread; -1: dispatched inside the loop
    enum effect_t
    {
        none,
        plain,     // an effect that does nothing more
        child,     // dispatches
        child_wait, // dispatches and returns the future
        off_child, // asynchronous work that dispatches
        off_wait,  // returns a future fulfilled by asynchronous work
    } eff = none;
    int eff_child = -1;
    // continuations on the future of the dispatch, one after another
    struct cont
    {
        int id;
        int child    = -1; // dispatched inside
        bool returns = false;
    };
    std::vector<cont> conts;
};

struct op
{
    enum kind_t
    {
        dispatch,     // and attach its continuations at once
        dispatch_keep, // ... later
        dispatch_hand, // ... in another thread
        attach_kept,
        attach_handed,
        also_kept, // two kept futures joined
        post,      // a function, without an action
        spin,
        pause,
        sync, // waits until the last dispatched action of the thread is done
    } kind;
    int id = 0; // action, posted function, amount, continuation of also
    int to = 0;
};

struct event
{
    enum kind_t
    {
        reduce,
        effect,
        off_done,
        cont,
        posted,
        joined,
        publish,
        loop_dispatch
    } kind;
    int id;
};

struct script
{
    int threads = 0;
    std::vector<plan> plans;
    std::vector<std::vector<op>> ops;
    int conts = 0, posts = 0, joins = 0;
    std::vector<std::pair<int, int>> joined; // actions
    bool futures       = true;
    bool transactional = false;
    bool can_async     = false;
    int delay          = 0;

    int gen_action(Case& c, int by, int depth)
    {
        auto id = static_cast<int>(plans.size());
        plans.emplace_back();
        plan p;
        p.by = by;
        p.eff = static_cast<plan::effect_t>(
            c.flip() ? 0 : c.small(can_async ? 6 : 4));
        if (!futures && (p.eff == plan::child_wait || p.eff == plan::off_wait))
            p.eff = plan::child;
        if (depth <= 0 && p.eff > plan::plain)
            p.eff = plan::plain;
        if (p.eff > plan::plain && p.eff != plan::off_wait)
            p.eff_child = gen_action(c, p.eff == plan::off_child ? -2 : -1, depth - 1);
        while (futures && p.conts.size() < 3 && c.more(1)) {
            auto k = plan::cont{conts++};
            if (depth > 0 && c.chance(1, 3)) {
                k.child   = gen_action(c, -1, depth - 1);
                k.returns = c.flip();
            }
            p.conts.push_back(k);
        }
        plans[id] = p;
        return id;
    }

    void gen(Case& c)
    {
        threads = 1 + c.small(4);
        delay   = c.small(4);
        ops.resize(threads);
        auto handed = std::vector<int>(threads);
        for (int t = 0; t < threads; ++t) {
            auto kept = std::vector<int>{};
            auto n = 0;
            while (n++ < 16 && c.more(7)) {
                auto k = c.small(14);
                if (k < 5 || k >= 12)
                    ops[t].push_back({op::dispatch, gen_action(c, t, 2)});
                else if (k == 5 && futures) {
                    auto id = gen_action(c, t, 2);
                    kept.push_back(id);
                    ops[t].push_back({op::dispatch_keep, id});
                } else if (k == 6 && futures) {
                    auto to = static_cast<int>(c.below(threads));
                    ops[t].push_back({op::dispatch_hand, gen_action(c, t, 2), to});
                    ++handed[to];
                } else if (k == 7 && kept.size() >= 1) {
                    ops[t].push_back({op::attach_kept});
                    kept.erase(kept.begin());
                } else if (k == 8 && kept.size() >= 2) {
                    joined.push_back({kept[0], kept[1]});
                    ops[t].push_back({op::also_kept, joins++});
                    kept.erase(kept.begin(), kept.begin() + 2);
                } else if (k == 9)
                    ops[t].push_back({op::post, posts++});
                else if (k == 10)
                    ops[t].push_back({op::spin, c.small(400)});
                else if (k == 11 && c.chance(1, 3))
                    ops[t].push_back({op::pause, c.small(100)});
                else if (futures && c.chance(1, 2))
                    ops[t].push_back({op::sync});
                else
                    ops[t].push_back({op::attach_handed});
            }
            for (auto k : kept)
                (void) k, ops[t].push_back({op::attach_kept});
        }
        // whoever is handed futures attaches to the rest of them at the end
    }

    std::string describe(int id) const
    {
        auto& p = plans[id];
        auto s  = "a" + std::to_string(id);
        static const char* names[] = {
            "", ":effect", ":effect>", ":effect>wait ", ":async>", ":async-wait"};
        s += names[p.eff];
        if (p.eff_child >= 0)
            s += "(" + describe(p.eff_child) + ")";
        for (auto& k : p.conts) {
            s += " then" + std::to_string(k.id);
            if (k.child >= 0)
                s += (k.returns ? ">wait (" : ">(") + describe(k.child) + ")";
        }
        return s;
    }
    void log(Case& c) const
    {
        static const char* names[] = {"dispatch", "keep", "hand",
                                      "attach kept", "attach handed", "also",
                                      "post", "spin", "pause", "sync"};
        for (int t = 0; t < threads; ++t)
            for (auto& o : ops[t])
                c.log("thread ", t, ": ", names[o.kind], " ",
                      o.kind <= op::dispatch_hand ? describe(o.id)
                                                  : std::to_string(o.id),
                      o.kind == op::dispatch_hand ? " to " + std::to_string(o.to)
                                                  : "");
    }
};

inline void spin_for(int n)
{
    auto i = std::atomic<int>{0};
    while (i.load(std::memory_order_relaxed) < n)
        i.store(i.load(std::memory_order_relaxed) + 1,
                std::memory_order_relaxed);
}

// one run of a script; shared by the threads
struct run
{
    using context_t = lager::context<act>;

    const script& s;
    std::vector<event> events;      // only touched in the loop
    std::vector<model_t> published; // same
    std::atomic<int> inside{0};     // threads that are inside the loop
    std::atomic<bool> overlap{false};
    std::atomic<bool> foreign{false};
    std::atomic<bool> stuck{false};
    std::thread::id loop_thread{}; // default: any, but one at a time
    std::vector<std::atomic<bool>> done; // per action: reduced and continued
    std::mutex box_mutex;
    std::vector<std::deque<std::pair<lager::future, int>>> box;
    std::atomic<int> alive{0};

    delayed delay;

    explicit run(const script& s_)
        : s{s_}
        , done(s_.plans.size())
        , box(s_.threads)
        , delay{s_.delay}
    {}

    struct in_loop
    {
        run& r;
        in_loop(run& r_)
            : r{r_}
        {
            if (r.inside.fetch_add(1, std::memory_order_relaxed) != 0)
                r.overlap = true;
            if (r.loop_thread != std::thread::id{} &&
                r.loop_thread != std::this_thread::get_id())
                r.foreign = true;
        }
        ~in_loop() { r.inside.fetch_sub(1, std::memory_order_relaxed); }
    };
    void note(event::kind_t k, int id)
    {
        auto g = in_loop{*this};
        events.push_back({k, id});
    }

    // attaches the continuations of an action
    lager::future attach(lager::future f, int id, context_t ctx)
    {
        auto& p = s.plans[id];
        for (auto& k : p.conts) {
            if (k.child >= 0 && k.returns)
                f = std::move(f).then([this, &k, ctx]() -> lager::future {
                    note(event::cont, k.id);
                    return loop_dispatch(k.child, ctx);
                });
            else
                f = std::move(f).then([this, &k, ctx] {
                    note(event::cont, k.id);
                    if (k.child >= 0)
                        loop_dispatch(k.child, ctx);
                });
        }
        return f;
    }
    lager::future finish(lager::future f, int id, context_t ctx)
    {
        f = attach(std::move(f), id, ctx);
        return std::move(f).then([this, id] { done[id] = true; });
    }
    lager::future loop_dispatch(int id, const context_t& ctx)
    {
        note(event::loop_dispatch, id);
        auto f = ctx.dispatch(act{id});
        if (!s.futures)
            return f;
        return finish(std::move(f), id, ctx);
    }

    lager::effect<act> effect(int id)
    {
        auto& p = s.plans[id];
        switch (p.eff) {
        case plan::none:
            return lager::noop;
        case plan::plain:
            return [this, id](auto&&) { note(event::effect, id); };
        case plan::child:
            return [this, id, &p](auto&& ctx) {
                note(event::effect, id);
                loop_dispatch(p.eff_child, ctx);
            };
        case plan::child_wait:
            return [this, id, &p](auto&& ctx) -> lager::future {
                note(event::effect, id);
                return loop_dispatch(p.eff_child, ctx);
            };
        case plan::off_child:
            return [this, id, &p](auto&& ctx_) {
                note(event::effect, id);
                context_t ctx = ctx_;
                ctx.loop().async([this, &p, ctx] {
                    auto f = ctx.dispatch(act{p.eff_child});
                    if (s.futures)
                        finish(std::move(f), p.eff_child, ctx);
                });
            };
        default:
            return [this, id](auto&& ctx_) -> lager::future {
                note(event::effect, id);
                context_t ctx = ctx_;
                auto [pr, f]  = lager::promise::with_post([ctx](auto fn) {
                    ctx.loop().post(std::move(fn));
                });
                ctx.loop().async([pr = std::move(pr)]() mutable { pr(); });
                return std::move(f).then(
                    [this, id] { note(event::off_done, id); });
            };
        }
    }

    auto reducer()
    {
        return [this](model_t m, act a)
                   -> std::pair<model_t, lager::effect<act>> {
            note(event::reduce, a.id);
            m.push_back(a.id);
            return {std::move(m), effect(a.id)};
        };
    }

    void thread_body(int t, context_t ctx)
    {
        auto kept = std::deque<std::pair<lager::future, int>>{};
        auto last = -1;
        for (auto& o : s.ops[t]) {
            switch (o.kind) {
            case op::dispatch: {
                auto f = ctx.dispatch(act{o.id});
                if (s.futures) {
                    finish(std::move(f), o.id, ctx);
                    last = o.id;
                }
                break;
            }
            case op::dispatch_keep:
                kept.emplace_back(ctx.dispatch(act{o.id}), o.id);
                break;
            case op::dispatch_hand: {
                auto f = ctx.dispatch(act{o.id});
                auto g = std::lock_guard{box_mutex};
                box[o.to].emplace_back(std::move(f), o.id);
                break;
            }
            case op::attach_kept: {
                auto [f, id] = std::move(kept.front());
                kept.pop_front();
                finish(std::move(f), id, ctx);
                last = id;
                break;
            }
            case op::also_kept: {
                auto [f, a] = std::move(kept[0]);
                auto [g, b] = std::move(kept[1]);
                kept.pop_front();
                kept.pop_front();
                finish(std::move(f), a, ctx)
                    .also(finish(std::move(g), b, ctx))
                    .then([this, id = o.id] { note(event::joined, id); });
                break;
            }
            case op::attach_handed:
                take(t, ctx);
                break;
            case op::post: {
                ctx.loop().post([this, id = o.id] { note(event::posted, id); });
                break;
            }
            case op::spin:
                spin_for(o.id);
                break;
            case op::pause:
                std::this_thread::sleep_for(std::chrono::microseconds{o.id});
                break;
            case op::sync: {
                auto end = std::chrono::steady_clock::now() +
                           std::chrono::seconds{8};
                while (last >= 0 && !done[last] && !stuck) {
                    std::this_thread::yield();
                    if (std::chrono::steady_clock::now() > end)
                        stuck = true;
                }
                break;
            }
            }
        }
    }
    void take(int t, context_t ctx)
    {
        auto mine = std::deque<std::pair<lager::future, int>>{};
        {
            auto g = std::lock_guard{box_mutex};
            mine.swap(box[t]);
        }
        for (auto& [f, id] : mine)
            finish(std::move(f), id, ctx);
    }
    void take_all(context_t ctx)
    {
        for (int t = 0; t < s.threads; ++t)
            take(t, ctx);
    }

    // index of the event that ends the work started by an action
    struct times
    {
        std::vector<int> reduce, cont, effect, off;
    };
    long action_done(const times& t, int id) const
    {
        auto& p = s.plans[id];
        long r  = t.reduce[id];
        if (p.eff != plan::none)
            r = std::max<long>(r, t.effect[id]);
        if (p.eff == plan::child_wait)
            r = std::max(r, future_done(t, p.eff_child));
        if (p.eff == plan::off_wait)
            r = std::max<long>(r, t.off[id]);
        return r;
    }
    long cont_done(const times& t, const plan::cont& k) const
    {
        long r = t.cont[k.id];
        if (k.child >= 0 && k.returns)
            r = std::max(r, future_done(t, k.child));
        return r;
    }
    long future_done(const times& t, int id) const
    {
        long r = action_done(t, id);
        for (auto& k : s.plans[id].conts)
            r = std::max(r, cont_done(t, k));
        return r;
    }

    void check(Case& c, const model_t& got)
    {
        P_CHECK(!foreign, "something ran outside of the loop's thread");
        P_CHECK(!overlap, "two things ran in the loop at the same time");
        P_CHECK(!stuck, "a continuation did not run while its thread waited");
        auto n  = static_cast<int>(s.plans.size());
        auto tm = times{std::vector<int>(n, -1),
                        std::vector<int>(s.conts, -1),
                        std::vector<int>(n, -1),
                        std::vector<int>(n, -1)};
        auto posted = std::vector<int>(s.posts, -1);
        auto joined = std::vector<int>(s.joins, -1);
        auto applied = model_t{};
        auto loop_order = std::vector<int>{};
        for (int i = 0; i < (int) events.size(); ++i) {
            auto& e    = events[i];
            auto once  = [&](std::vector<int>& v, const char* what) {
                P_CHECK(v[e.id] < 0, what << " " << e.id << " again");
                v[e.id] = i;
            };
            switch (e.kind) {
            case event::reduce:
                once(tm.reduce, "action");
                applied.push_back(e.id);
                break;
            case event::effect:
                once(tm.effect, "effect of action");
                break;
            case event::off_done:
                once(tm.off, "asynchronous work of action");
                break;
            case event::cont:
                once(tm.cont, "continuation");
                break;
            case event::posted:
                once(posted, "posted function");
                break;
            case event::joined:
                once(joined, "continuation of joined futures");
                break;
            case event::publish:
                break;
            case event::loop_dispatch:
                loop_order.push_back(e.id);
                break;
            }
        }
        auto all = [&](const std::vector<int>& v, const char* what) {
            for (int i = 0; i < (int) v.size(); ++i)
                P_CHECK(v[i] >= 0, what << " " << i << " was lost");
        };
        all(tm.reduce, "action");
        all(posted, "posted function");
        all(joined, "continuation of joined futures");
        if (s.futures)
            all(tm.cont, "continuation");
        for (int i = 0; i < n; ++i) {
            P_CHECK((tm.effect[i] >= 0) == (s.plans[i].eff != plan::none),
                    "effect of action " << i);
            if (tm.effect[i] >= 0)
                P_CHECK(tm.effect[i] > tm.reduce[i], "effect of action " << i);
        }
        P_EQ(got, applied, "final model");
        // each thread's actions, and those dispatched in the loop, in order
        auto last = std::vector<int>(s.threads, -1);
        for (auto id : applied) {
            auto by = s.plans[id].by;
            if (by < 0)
                continue;
            P_CHECK(last[by] < id,
                    "action " << id << " of thread " << by << " after " << last[by]);
            last[by] = id;
        }
        auto at = std::size_t{};
        for (auto id : applied)
            if (at < loop_order.size() && loop_order[at] == id)
                ++at;
        P_EQ(at, loop_order.size(), "order of actions dispatched in the loop");
        // continuations come after what they wait for
        if (s.futures)
            for (int i = 0; i < n; ++i) {
                auto t = action_done(tm, i);
                for (auto& k : s.plans[i].conts) {
                    P_CHECK(tm.cont[k.id] > t,
                            "continuation " << k.id << " of action " << i);
                    t = cont_done(tm, k);
                }
            }
        for (int i = 0; i < s.joins; ++i)
            P_CHECK(joined[i] > future_done(tm, s.joined[i].first) &&
                        joined[i] > future_done(tm, s.joined[i].second),
                    "joined futures " << i);
        // what was published: growing prefixes of the final model
        auto size = std::size_t{};
        for (auto& m : published) {
            P_CHECK(m.size() > size && m.size() <= applied.size(),
                    "published a model of " << m.size() << " after one of " << size);
            P_EQ(m, model_t(applied.begin(), applied.begin() + m.size()));
            size = m.size();
        }
        P_EQ(size, applied.size(), "last published model");
        c.label("several threads", s.threads > 1);
        c.label("continuation dispatches or waits", s.conts > 0 && n > 4);
        c.label("futures handed over", [&] {
            for (auto& v : s.ops)
                for (auto& o : v)
                    if (o.kind == op::dispatch_hand)
                        return true;
            return false;
        }());
        c.nontrivial(s.threads > 1 && n >= 6);
    }
};

// with_loop: how the store gets its loop; body(store, run) drives it
template <typename WithLoop, typename Body>
void with_store(run& r, WithLoop loop, Body&& body)
{
    auto go = [&](auto store) {
        lager::watch(store, [&](const model_t& m) {
            auto g = run::in_loop{r};
            r.events.push_back({event::publish, 0});
            r.published.push_back(m);
        });
        body(store);
    };
    if (r.s.transactional) {
        if (r.s.futures)
            go(lager::make_store<act, lager::transactional_tag>(
                model_t{}, loop, lager::with_reducer(r.reducer()),
                lager::with_futures));
        else
            go(lager::make_store<act, lager::transactional_tag>(
                model_t{}, loop, lager::with_reducer(r.reducer())));
    } else {
        if (r.s.futures)
            go(lager::make_store<act>(model_t{},
                                      loop,
                                      lager::with_reducer(r.reducer()),
                                      lager::with_futures));
        else
            go(lager::make_store<act>(
                model_t{}, loop, lager::with_reducer(r.reducer())));
    }
}

} // namespace c17
