// C28: loops of other libraries: functions that post functions, from the
// loop's thread, from other threads and from asynchronous work.
#pragma once
#include <pbt.hpp>

#include <lager/store.hpp>

#include <atomic>
#include <chrono>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace c28 {

using pbt::Case;

struct task
{
    enum where_t
    {
        local,
        remote, // posted from a thread that ends before the next thing happens
        async,  // asynchronous work that posts it
    };
    int id;
    where_t where = local;
    int form      = 0; // how the function is handed over
    int deed      = 0; // something else it does, see each loop
    std::vector<std::shared_ptr<task>> children;
    int deed_at = 0; // after that many children
};
using task_ptr = std::shared_ptr<task>;

struct kinds
{
    bool remote = false, async = false;
    int deeds = 0; // 0: none
};

inline task_ptr gen_task(Case& c, int& ids, int depth, kinds k)
{
    auto t  = std::make_shared<task>();
    t->id   = ids++;
    t->form = c.small(4);
    if (k.async && c.chance(1, 4))
        t->where = task::async;
    else if (k.remote && c.chance(1, 4))
        t->where = task::remote;
    while (depth > 0 && t->children.size() < 3 && c.more(1))
        t->children.push_back(gen_task(c, ids, depth - 1, k));
    if (k.deeds && c.chance(1, 6)) {
        t->deed    = 1 + c.small(k.deeds);
        t->deed_at = static_cast<int>(c.below(t->children.size() + 1));
    }
    return t;
}

inline std::string describe(const task& t)
{
    auto s = std::string{t.where == task::remote  ? "~"
                         : t.where == task::async ? "&"
                                                  : ""} +
             "#" + std::to_string(t.id);
    if (t.deed)
        s += "!" + std::to_string(t.deed) + "@" + std::to_string(t.deed_at);
    if (!t.children.empty()) {
        s += "(";
        for (std::size_t i = 0; i < t.children.size(); ++i)
            s += (i ? " " : "") + describe(*t.children[i]);
        s += ")";
    }
    return s;
}

// Something a function holds: tells how many are alive
struct held
{
    std::shared_ptr<std::atomic<int>> alive;
    held(std::shared_ptr<std::atomic<int>> a)
        : alive{std::move(a)}
    {
        ++*alive;
    }
    held(const held& o)
        : alive{o.alive}
    {
        ++*alive;
    }
    ~held() { --*alive; }
};

// The loop as a user of it sees it: type-erased, with the forms of handing
// over a function.
struct loop_iface
{
    std::function<void(task_ptr, int form)> post;
    std::function<void(std::function<void()>, int form)> async;
    std::function<void()> finish, pause, resume;
};

template <typename Loop>
void post_form(Loop& l, std::function<void()> fn, int form)
{
    switch (form) {
    case 0:
        l.post(fn);
        break;
    case 1:
        l.post([fn] { fn(); });
        break;
    case 2: {
        const auto f = fn;
        l.post(f);
        break;
    }
    default:
        l.post(std::move(fn));
    }
}

// Runs trees of tasks and keeps the queue they should come from.
struct player
{
    Case& c;
    std::function<void(std::function<void()>, int)> post;
    std::function<void(std::function<void()>, int)> async;
    std::function<void(int)> deed = [](int) {};
    std::function<void(int)> ran_hook = [](int) {};

    // local and remote posts, in the order they were made
    std::deque<task_ptr> queue;
    // when the order between threads is not given
    bool by_thread = false;
    std::mutex mutex;
    std::vector<int> ran;
    std::vector<int> async_ran;
    std::vector<std::pair<int, int>> order; // task, index of posting
    std::shared_ptr<std::atomic<int>> alive =
        std::make_shared<std::atomic<int>>(0);
    std::thread::id loop_thread = std::this_thread::get_id();
    std::string problem;
    bool posting = false;
    int depth    = 0;
    int pending_async = 0;

    void note(const std::string& s)
    {
        auto g = std::lock_guard{mutex};
        if (problem.empty())
            problem = s;
    }
    void ok()
    {
        auto g = std::lock_guard{mutex};
        P_CHECK(problem.empty(), problem);
    }

    void hand_over(task_ptr t)
    {
        switch (t->where) {
        case task::local:
            do_post(t, true);
            break;
        case task::remote:
            std::thread([&] { do_post(t, true); }).join();
            break;
        case task::async: {
            auto caller = std::this_thread::get_id();
            auto h      = held{alive};
            async(
                [this, t, caller, h] {
                    if (std::this_thread::get_id() == caller)
                        note("asynchronous work in the caller's thread");
                    {
                        auto g = std::lock_guard{mutex};
                        async_ran.push_back(t->id);
                    }
                    do_post(t, false);
                },
                t->form);
            break;
        }
        }
    }
    void do_post(task_ptr t, bool queued)
    {
        if (queued) {
            auto g = std::lock_guard{mutex};
            queue.push_back(t);
        }
        auto h  = held{alive};
        auto in = std::this_thread::get_id() == loop_thread;
        auto p  = in && posting;
        if (in)
            posting = true;
        post([this, t, h] { execute(t); }, t->form);
        if (in)
            posting = p;
    }
    void execute(task_ptr t)
    {
        if (std::this_thread::get_id() != loop_thread) {
            note("task " + std::to_string(t->id) + " ran in another thread");
            return;
        }
        if (posting)
            note("task " + std::to_string(t->id) + " ran while something was posted");
        if (depth)
            note("task " + std::to_string(t->id) + " ran within another");
        ++depth;
        {
            auto g = std::lock_guard{mutex};
            ran.push_back(t->id);
            if (t->where != task::async) {
                auto it = queue.begin();
                if (by_thread)
                    while (it != queue.end() && (*it)->where != t->where)
                        ++it;
                if (it == queue.end() || *it != t) {
                    if (problem.empty())
                        problem = "task " + std::to_string(t->id) +
                                  " ran instead of " +
                                  (it == queue.end()
                                       ? std::string{"nothing"}
                                       : std::to_string((*it)->id));
                } else
                    queue.erase(it);
            }
        }
        ran_hook(t->id);
        for (int i = 0; i <= (int) t->children.size(); ++i) {
            if (t->deed && t->deed_at == i)
                deed(t->deed);
            if (i < (int) t->children.size())
                hand_over(t->children[i]);
        }
        --depth;
    }
    void all_once(int tasks)
    {
        auto seen = std::vector<int>(tasks);
        for (auto id : ran)
            ++seen[id];
        for (int i = 0; i < tasks; ++i)
            P_EQ(seen[i], 1, "runs of task " << i);
        auto again = std::vector<int>(tasks);
        for (auto id : async_ran)
            P_EQ(++again[id], 1, "runs of asynchronous work " << id);
    }
};

} // namespace c28
