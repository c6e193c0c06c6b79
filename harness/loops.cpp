// C16: manual, queue and safe-queue event loops against a FIFO model.
#include <pbt.hpp>

#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/store.hpp>

#include <deque>
#include <map>
#include <memory>
#include <thread>

using pbt::Case;

namespace {

struct boom
{
    int id;
};

// a task posts some children, maybe throws in between, then posts some more
struct task
{
    int id;
    int throw_at = -1; // -1: does not throw; k: throws after posting k children
    std::vector<std::shared_ptr<task>> children;
    std::vector<bool> remote; // child posted from another thread
    int wrap = 0;             // how the function is handed over
};
using task_ptr = std::shared_ptr<task>;

task_ptr gen_task(Case& c, int& ids, int depth, bool remote)
{
    auto t  = std::make_shared<task>();
    t->id   = ids++;
    t->wrap = c.small(3);
    while (depth > 0 && t->children.size() < 4 && c.more(1)) {
        auto r = remote && c.chance(1, 4);
        t->children.push_back(gen_task(c, ids, depth - 1, remote));
        t->remote.push_back(r);
    }
    auto plain = [&] {
        auto x = std::make_shared<task>();
        x->id  = ids++;
        return x;
    };
    auto add = [&](task_ptr p, task_ptr x) {
        p->children.push_back(x);
        p->remote.push_back(false);
        return x;
    };
    // many at once, or long chains of one posting the next
    if (c.chance(1, 24))
        for (int n = 1 << c.small(8); n; --n)
            add(t, plain());
    else if (c.chance(1, 24)) {
        auto p = t;
        for (int n = 1 << c.small(8); n; --n)
            p = add(p, plain());
    }
    if (c.chance(1, 6))
        t->throw_at = static_cast<int>(c.below(t->children.size() + 1));
    return t;
}

std::string describe(const task& t)
{
    std::string s = "#" + std::to_string(t.id);
    if (t.throw_at >= 0)
        s += "!" + std::to_string(t.throw_at);
    if (!t.children.empty()) {
        s += "(";
        for (std::size_t i = 0; i < t.children.size(); ++i) {
            if (i > 8 && i + 1 < t.children.size())
                s += i == 9 ? " ..." : "";
            else
                s += (i ? " " : "") + std::string{t.remote[i] ? "~" : ""} +
                     describe(*t.children[i]);
        }
        s += ")";
    }
    return s;
}

template <typename Post>
struct runner
{
    Post post; // post(fn, wrap)
    std::vector<int>& ran;

    void hand_over(task_ptr t, bool remote)
    {
        if (remote)
            std::thread([&] { do_post(t); }).join();
        else
            do_post(t);
    }
    void do_post(task_ptr t)
    {
        auto self = this;
        auto fn   = [self, t] { self->execute(*t); };
        switch (t->wrap) {
        case 0:
            post(fn);
            break;
        case 1:
            post(std::function<void()>{fn});
            break;
        default: {
            const auto f = std::function<void()>{fn};
            post(f);
        }
        }
    }
    void execute(task& t)
    {
        ran.push_back(t.id);
        for (std::size_t i = 0; i <= t.children.size(); ++i) {
            if (t.throw_at == static_cast<int>(i))
                throw boom{t.id};
            if (i < t.children.size())
                hand_over(t.children[i], t.remote[i]);
        }
    }
};
template <typename Post>
runner(Post, std::vector<int>&) -> runner<Post>;

// the FIFO model
struct model
{
    std::deque<task_ptr> q;
    std::vector<int> ran;
    int thrower = -1;

    // runs everything; stops at the first task that throws
    bool drain()
    {
        while (!q.empty()) {
            auto t = q.front();
            q.pop_front();
            ran.push_back(t->id);
            for (std::size_t i = 0; i <= t->children.size(); ++i) {
                if (t->throw_at == static_cast<int>(i)) {
                    thrower = t->id;
                    return false;
                }
                if (i < t->children.size())
                    q.push_back(t->children[i]);
            }
        }
        return true;
    }
};

template <typename Fn>
int caught(Fn&& fn)
{
    try {
        fn();
    } catch (const boom& b) {
        return b.id;
    }
    return -1;
}

template <typename Post, typename Step>
void fifo_history(Case& c, bool posts_run, Post post, Step step)
{
    auto ran = std::vector<int>{};
    auto r   = runner{post, ran};
    auto m   = model{};
    int ids = 0, throws = 0, nested = 0;
    int n = 0;
    while (n < 25 && c.more(8)) {
        ++n;
        if (posts_run || c.chance(3, 4)) {
            auto t = gen_task(c, ids, 3, false);
            nested += !t->children.empty();
            c.log("post ", describe(*t));
            auto got  = caught([&] { r.hand_over(t, false); });
            auto want = -1;
            m.q.push_back(t);
            if (posts_run && !m.drain())
                want = m.thrower;
            throws += want >= 0;
            P_EQ(got, want, "exception reaching the poster");
        } else {
            c.log("step");
            auto got  = caught([&] { step(); });
            auto want = m.drain() ? -1 : m.thrower;
            throws += want >= 0;
            P_EQ(got, want, "exception reaching the caller of step");
        }
        P_EQ(ran, m.ran);
    }
    // drain what is left
    for (int i = 0; i < 400 && (!m.q.empty() || i == 0); ++i) {
        auto want = -2;
        if (posts_run) {
            auto t  = std::make_shared<task>();
            t->id   = ids++;
            auto got = caught([&] { r.hand_over(t, false); });
            m.q.push_back(t);
            want = m.drain() ? -1 : m.thrower;
            P_EQ(got, want);
        } else {
            auto got = caught([&] { step(); });
            want     = m.drain() ? -1 : m.thrower;
            P_EQ(got, want);
        }
        P_EQ(ran, m.ran);
    }
    P_EQ(static_cast<int>(ran.size()), ids <= 4000 ? (int) m.ran.size() : -1);
    c.label("history with exception", throws > 0);
    c.label("history with nested posts", nested > 0);
    c.label("exception and nested", throws > 0 && nested > 0);
    c.nontrivial(ran.size() >= 3 && (throws > 0 || nested > 0));
}

template <typename Loop>
bool async_reported(Loop& l)
{
    bool ran = false;
    try {
        l.async([&] { ran = true; });
    } catch (const std::logic_error&) {
        return !ran;
    }
    return false;
}

} // namespace

PBT_TARGET(manual_loop,
           3,
           "at least 3 tasks ran and there was a nested post or an exception")
{
    auto loop = lager::with_manual_event_loop{};
    fifo_history(
        c,
        true,
        [&](auto&& f) { loop.post(std::forward<decltype(f)>(f)); },
        [] {});
    P_CHECK(async_reported(loop));
}

PBT_TARGET(queue_loop,
           3,
           "at least 3 tasks ran and there was a nested post or an exception")
{
    auto loop = lager::queue_event_loop{};
    auto w1   = lager::with_queue_event_loop{loop};
    auto w2   = w1;
    auto way  = c.small(3);
    fifo_history(
        c,
        false,
        [&](auto&& f) {
            if (way == 0)
                loop.post(std::forward<decltype(f)>(f));
            else
                (way == 1 ? w1 : w2).post(std::forward<decltype(f)>(f));
        },
        [&] { loop.step(); });
    P_CHECK(async_reported(loop));
    P_CHECK(async_reported(w1));
}

PBT_TARGET(safe_queue_loop_local,
           2,
           "at least 3 tasks ran and there was a nested post or an exception")
{
    auto loop  = lager::safe_queue_event_loop{};
    auto w     = lager::with_safe_queue_event_loop{loop};
    auto way   = c.small(2);
    auto adopt = c.chance(1, 4);
    auto go    = [&] {
        fifo_history(
            c,
            false,
            [&](auto&& f) {
                if (way)
                    loop.post(std::forward<decltype(f)>(f));
                else
                    w.post(std::forward<decltype(f)>(f));
            },
            [&] { loop.step(); });
    };
    if (adopt) {
        c.label("adopted by another thread");
        auto err = std::exception_ptr{};
        std::thread([&] {
            loop.adopt();
            try {
                go();
            } catch (...) {
                err = std::current_exception();
            }
        }).join();
        if (err)
            std::rethrow_exception(err);
    } else
        go();
    P_CHECK(async_reported(loop));
    P_CHECK(async_reported(w));
}

// Posts from other threads: per poster FIFO, exactly once; everything posted
// before a step that does not throw has run when it returns, and so have the
// functions posted locally while it ran.
PBT_TARGET(safe_queue_loop_remote,
           3,
           "at least 3 tasks ran and at least one was posted from another thread")
{
    auto loop = lager::safe_queue_event_loop{};
    auto ran  = std::vector<int>{};
    auto post = [&](auto&& f) { loop.post(std::forward<decltype(f)>(f)); };

    struct info
    {
        bool remote;
        int seq;
    };
    auto posted   = std::map<int, info>{}; // everything handed to the loop
    auto finished = std::map<int, int>{};
    int seq = 0, ids = 0, remotes = 0, throws = 0;
    bool in_step = false;
    auto must    = std::vector<int>{}; // must have run when this step returns

    std::function<void(task_ptr, bool)> hand_over;
    std::function<void(task_ptr)> execute = [&](task_ptr t) {
        ran.push_back(t->id);
        ++finished[t->id];
        for (std::size_t i = 0; i <= t->children.size(); ++i) {
            if (t->throw_at == static_cast<int>(i))
                throw boom{t->id};
            if (i < t->children.size())
                hand_over(t->children[i], t->remote[i]);
        }
    };
    hand_over = [&](task_ptr t, bool remote) {
        posted[t->id] = {remote, seq++};
        remotes += remote;
        if (in_step && !remote)
            must.push_back(t->id);
        if (remote)
            std::thread([&] { post([&, t] { execute(t); }); }).join();
        else
            post([&, t] { execute(t); });
    };
    auto step = [&] {
        must.clear();
        for (auto& [id, i] : posted)
            if (!finished.count(id))
                must.push_back(id);
        in_step = true;
        auto e  = caught([&] { loop.step(); });
        in_step = false;
        if (e < 0) {
            for (auto id : must)
                P_EQ(finished[id], 1, "task " << id << " after step");
        } else {
            ++throws;
            P_CHECK(!ran.empty() && ran.back() == e, "thrower is the last run");
        }
    };
    auto check = [&] {
        int last[2] = {-1, -1};
        for (auto id : ran) {
            P_CHECK(posted.count(id));
            P_EQ(finished[id], 1, "task " << id);
            auto i = posted[id];
            P_CHECK(last[i.remote] < i.seq, "order of task " << id);
            last[i.remote] = i.seq;
        }
    };
    int n = 0;
    while (n++ < 25 && c.more(8)) {
        if (c.chance(3, 4)) {
            auto remote = c.flip();
            auto t      = gen_task(c, ids, 3, true);
            c.log(remote ? "post from thread " : "post ", describe(*t));
            hand_over(t, remote);
        } else {
            c.log("step");
            step();
        }
        check();
    }
    for (int i = 0; i < 400 && finished.size() < posted.size(); ++i)
        step();
    check();
    P_EQ(finished.size(), posted.size());
    P_EQ(ran.size(), posted.size());
    c.label("remote posts", remotes > 0);
    c.label("remote posts and exception", remotes > 0 && throws > 0);
    c.nontrivial(ran.size() >= 3 && remotes > 0);
}

// The store over these loops: a throwing reducer affects only its own action.
namespace {
struct add
{
    int x;
    bool bad;
};
template <typename Loop, typename Step>
void throwing_store(Case& c, Loop loop, bool posts_run, Step step)
{
    auto store = lager::make_store<add>(
        std::vector<int>{},
        std::move(loop),
        lager::with_reducer([](std::vector<int> m, add a) {
            if (a.bad)
                throw boom{a.x};
            m.push_back(a.x);
            return m;
        }));
    auto queue = std::deque<add>{};
    auto want  = std::vector<int>{};
    int n = 0, throws = 0;
    auto drain = [&] {
        while (!queue.empty()) {
            auto a = queue.front();
            queue.pop_front();
            if (a.bad)
                return a.x;
            want.push_back(a.x);
        }
        return -1;
    };
    while (n < 20 && c.more(8)) {
        ++n;
        if (posts_run || c.chance(2, 3)) {
            auto a = add{n, c.chance(1, 4)};
            c.log("dispatch ", a.x, a.bad ? " throwing" : "");
            auto got = caught([&] { store.dispatch(a); });
            queue.push_back(a);
            auto w = posts_run ? drain() : -1;
            throws += w >= 0;
            P_EQ(got, w);
        } else {
            c.log("step");
            auto got = caught([&] { step(); });
            auto w   = drain();
            throws += w >= 0;
            P_EQ(got, w);
            if (w < 0)
                P_EQ(store.get(), want);
        }
    }
    for (int i = 0; i < 600; ++i) {
        auto w = -1;
        if (posts_run) {
            auto got = caught([&] { store.dispatch(add{100 + i, false}); });
            queue.push_back({100 + i, false});
            P_EQ(got, w = drain());
        } else {
            auto got = caught([&] { step(); });
            P_EQ(got, w = drain());
        }
        // published once a run ends without exception
        if (queue.empty() && w < 0)
            break;
    }
    P_EQ(store.get(), want);
    c.nontrivial(throws > 0 && n >= 3);
    c.label("store with throwing reducer", throws > 0);
}
} // namespace

PBT_TARGET(store_throwing_reducer,
           2,
           "at least 3 operations and a reducer that threw")
{
    switch (c.small(3)) {
    case 0:
        throwing_store(c, lager::with_manual_event_loop{}, true, [] {});
        break;
    case 1: {
        auto q = lager::queue_event_loop{};
        throwing_store(
            c, lager::with_queue_event_loop{q}, false, [&] { q.step(); });
        break;
    }
    default: {
        auto q = lager::safe_queue_event_loop{};
        throwing_store(
            c, lager::with_safe_queue_event_loop{q}, false, [&] { q.step(); });
    }
    }
}
