// C17 on the safe queue; promises fulfilled and continued in different threads
#include "c17.hpp"

using namespace c17;

PBT_TARGET_N(safe_queue, 4, "at least two threads and six actions", 400)
{
    auto s    = script{};
    s.futures = !c.chance(1, 4);
    s.transactional = c.chance(1, 6);
    s.gen(c);
    auto pace  = c.small(200);
    auto late  = c.chance(1, 4);
    auto adopt = c.chance(1, 4);
    c.log(s.futures ? "futures" : "no futures",
          s.transactional ? ", transactional" : "",
          late ? ", first step at the end" : "", ", pace ", pace);
    s.log(c);
    auto r     = run{s};
    auto got   = model_t{};
    auto drive = [&](lager::safe_queue_event_loop& q) {
        r.loop_thread = std::this_thread::get_id();
        with_store(r, lager::with_safe_queue_event_loop{q}, [&](auto& store) {
            auto ctx = run::context_t{store};
            auto ts  = std::vector<std::thread>{};
            r.alive  = s.threads;
            for (int t = 0; t < s.threads; ++t)
                ts.emplace_back([&, t] {
                    r.thread_body(t, ctx);
                    --r.alive;
                });
            auto step = [&] {
                q.step();
                if (s.transactional)
                    lager::commit(store);
            };
            auto has_sync = false;
            for (auto& v : s.ops)
                for (auto& o : v)
                    has_sync |= o.kind == op::sync;
            if (late && !has_sync)
                for (auto& t : ts)
                    t.join();
            else {
                while (r.alive > 0) {
                    step();
                    if (pace < 100)
                        spin_for(pace * 4);
                    else
                        std::this_thread::yield();
                }
                for (auto& t : ts)
                    t.join();
            }
            r.take_all(ctx);
            // futures that wait for others can make long chains
            auto seen = r.events.size();
            for (int idle = 0; idle < 100; ++idle) {
                step();
                if (r.events.size() != seen) {
                    seen = r.events.size();
                    idle = 0;
                }
            }
            got = store.get();
        });
    };
    if (adopt) {
        // made here, run by another thread
        auto q = lager::safe_queue_event_loop{};
        std::thread([&] {
            q.adopt();
            drive(q);
        }).join();
    } else {
        auto q = lager::safe_queue_event_loop{};
        drive(q);
    }
    r.check(c, got);
}

// A tree of continuations on promises that several threads fulfil while others
// attach to their futures.
PBT_TARGET_N(promises, 3, "two threads and at least three promises", 400)
{
    auto n       = 1 + static_cast<int>(c.below(6));
    auto threads = 1 + c.small(3);
    struct job
    {
        bool fulfil; // or attach
        int i;
        int spin;
    };
    struct chain
    {
        int length = 1;
        int waits  = -1; // the first link waits for this promise's future
    };
    auto chains = std::vector<chain>(n);
    auto spare  = std::vector<bool>(n); // waited for by another, not attached
    for (int i = 0; i < n; ++i)
        chains[i].length = 1 + c.small(3);
    for (int i = 0; i + 1 < n; ++i)
        if (c.chance(1, 3)) {
            chains[i].waits = i + 1; // no cycles
            spare[i + 1]    = true;
        }
    auto jobs = std::vector<std::vector<job>>(threads);
    auto todo = std::vector<job>{};
    for (int i = 0; i < n; ++i) {
        todo.push_back({true, i, c.small(300)});
        if (!spare[i])
            todo.push_back({false, i, c.small(300)});
    }
    while (!todo.empty()) {
        auto k = c.below(todo.size());
        auto t = c.below(threads);
        jobs[t].push_back(todo[k]);
        todo.erase(todo.begin() + k);
    }
    for (int t = 0; t < threads; ++t)
        for (auto& j : jobs[t])
            c.log("thread ", t, ": ", j.fulfil ? "fulfil " : "attach ", j.i,
                  " after ", j.spin,
                  j.fulfil || chains[j.i].waits < 0
                      ? ""
                      : " waiting for " + std::to_string(chains[j.i].waits));
    auto delay    = delayed{static_cast<int>(c.small(4))};
    auto loop     = lager::safe_queue_event_loop{};
    auto promises = std::vector<lager::promise>{};
    auto futures  = std::vector<lager::future>{};
    for (int i = 0; i < n; ++i) {
        auto [p, f] = lager::promise::with_loop(loop);
        promises.push_back(std::move(p));
        futures.push_back(std::move(f));
    }
    auto main_id = std::this_thread::get_id();
    auto ran     = std::vector<std::vector<int>>(n);
    auto order   = std::vector<std::pair<int, int>>{};
    auto foreign = std::atomic<bool>{false};
    auto alive   = std::atomic<int>{threads};
    auto fulfilled = std::vector<std::atomic<bool>>(n);
    auto early     = std::atomic<bool>{false};

    auto attach = std::function<lager::future(int)>{};
    attach      = [&](int i) {
        auto f = std::move(futures[i]);
        for (int k = 0; k < chains[i].length; ++k) {
            auto body = [&, i, k] {
                if (std::this_thread::get_id() != main_id)
                    foreign = true;
                if (!fulfilled[i])
                    early = true;
                ran[i].push_back(k);
                order.push_back({i, k});
            };
            if (k == 0 && chains[i].waits >= 0)
                f = std::move(f).then([&, i, body]() -> lager::future {
                    body();
                    return attach(chains[i].waits);
                });
            else
                f = std::move(f).then(body);
        }
        return f;
    };
    auto ts = std::vector<std::thread>{};
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            for (auto& j : jobs[t]) {
                spin_for(j.spin);
                if (j.fulfil) {
                    fulfilled[j.i] = true;
                    promises[j.i]();
                } else
                    attach(j.i);
            }
            --alive;
        });
    while (alive > 0)
        loop.step();
    for (auto& t : ts)
        t.join();
    for (int i = 0; i < 300; ++i)
        loop.step();
    P_CHECK(!foreign, "a continuation ran outside of the loop's thread");
    P_CHECK(!early, "a continuation ran before its promise was fulfilled");
    for (int i = 0; i < n; ++i) {
        auto want = std::vector<int>{};
        for (int k = 0; k < chains[i].length; ++k)
            want.push_back(k);
        P_EQ(ran[i], want, "continuations of promise " << i);
    }
    auto at = [&](int i, int k) {
        for (std::size_t j = 0; j < order.size(); ++j)
            if (order[j] == std::make_pair(i, k))
                return j;
        return order.size();
    };
    for (int i = 0; i < n; ++i)
        if (chains[i].waits >= 0 && chains[i].length > 1)
            P_CHECK(at(i, 1) >
                        at(chains[i].waits, chains[chains[i].waits].length - 1),
                    "promise " << i << " did not wait for "
                               << chains[i].waits);
    c.nontrivial(threads > 1 && n >= 3);
}

// Plain functions posted to the queue from several threads.
PBT_TARGET_N(posts, 2, "two threads and at least six functions", 400)
{
    struct item
    {
        int spin;
        int children; // posted when run
    };
    auto threads = 1 + c.small(5);
    auto items   = std::vector<std::vector<item>>(threads);
    auto total   = 0;
    for (auto& v : items)
        while (v.size() < 12 && c.more(5)) {
            v.push_back({c.small(100), c.small(3)});
            ++total;
        }
    auto pace = c.small(100);
    for (int t = 0; t < threads; ++t)
        c.log("thread ", t, " posts ", items[t].size());
    auto delay   = delayed{static_cast<int>(c.small(4))};
    auto loop    = lager::safe_queue_event_loop{};
    auto main_id = std::this_thread::get_id();
    auto foreign = std::atomic<bool>{false};
    auto ran     = std::vector<std::vector<int>>(threads);
    auto inner   = std::vector<std::pair<int, int>>{};
    auto inner_want = std::vector<std::pair<int, int>>{};
    auto alive      = std::atomic<int>{threads};
    auto ts         = std::vector<std::thread>{};
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            for (int i = 0; i < (int) items[t].size(); ++i) {
                spin_for(items[t][i].spin);
                loop.post([&, t, i] {
                    if (std::this_thread::get_id() != main_id)
                        foreign = true;
                    ran[t].push_back(i);
                    for (int k = 0; k < items[t][i].children; ++k) {
                        auto tag = std::make_pair(t * 100 + i, k);
                        inner_want.push_back(tag);
                        loop.post([&, tag] { inner.push_back(tag); });
                    }
                });
            }
            --alive;
        });
    while (alive > 0) {
        loop.step();
        spin_for(pace);
    }
    for (auto& t : ts)
        t.join();
    loop.step();
    P_CHECK(!foreign, "a function ran outside of the loop's thread");
    for (int t = 0; t < threads; ++t) {
        auto want = std::vector<int>{};
        for (int i = 0; i < (int) items[t].size(); ++i)
            want.push_back(i);
        P_EQ(ran[t], want, "functions posted by thread " << t);
    }
    P_CHECK(inner == inner_want, "functions posted inside the loop");
    c.nontrivial(threads > 1 && total >= 6);
}
