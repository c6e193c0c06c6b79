#include "c28.hpp"

#include <QCoreApplication>
#include <QGuiApplication>
#include <QObject>
#include <QThread>

#include <lager/event_loop/qt.hpp>

using namespace c28;

namespace c28 {
QGuiApplication& app()
{
    static int argc      = 1;
    static char name[]   = "c28";
    static char* argv[]  = {name, nullptr};
    static auto instance = new QGuiApplication{argc, argv};
    return *instance;
}
} // namespace c28

namespace {

template <typename Loop, typename Body>
void with_loop(Case& c, Loop&& make, Body&& body)
{
    if (c.flip()) {
        c.log("through a context");
        auto store = lager::make_store<int>(
            0, make(), lager::with_reducer([](int m, int) { return m; }));
        auto ctx = lager::context<int>{store};
        body(ctx.loop());
    } else {
        auto loop = make();
        body(loop);
    }
}

template <typename Fn>
bool throws(Fn&& fn)
{
    try {
        fn();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

} // namespace

PBT_TARGET(qt_posts, 3, "at least four functions")
{
    app();
    auto pool = QThreadPool{};
    auto obj  = QObject{};
    pool.setMaxThreadCount(1 + c.small(4));
    auto ids = 0;
    auto p   = player{c};
    auto n   = 0;
    with_loop(c, [&] { return lager::with_qt_event_loop{obj, pool}; }, [&](auto& loop) {
        p.post = [&](auto fn, int form) { post_form(loop, fn, form); };
        P_CHECK(throws([&] { loop.pause(); }), "pause is not supported");
        P_CHECK(throws([&] { loop.resume(); }), "resume is not supported");
        while (n++ < 15 && c.more(7)) {
            switch (c.small(3)) {
            case 0: {
                auto t = gen_task(c, ids, 2, {true, false, 0});
                c.log("post ", describe(*t));
                auto before = p.ran.size();
                p.hand_over(t);
                P_EQ(p.ran.size(), before, "ran while posting");
                break;
            }
            case 1: {
                auto had = p.queue.size();
                auto before = p.ran.size();
                c.log("process events");
                QCoreApplication::processEvents();
                P_CHECK(p.ran.size() - before >= had, "posted functions left");
                break;
            }
            default:
                c.log("send posted events");
                QCoreApplication::sendPostedEvents(&obj);
            }
            p.ok();
        }
        for (int i = 0; i < 300 && !p.queue.empty(); ++i)
            QCoreApplication::processEvents();
    });
    p.ok();
    p.all_once(ids);
    P_EQ(p.alive->load(), 0, "functions kept after they ran");
    c.nontrivial(ids >= 4);
}

// exec() runs until finish()
PBT_TARGET(qt_exec, 1, "at least four functions")
{
    app();
    auto pool = QThreadPool{};
    auto obj  = QObject{};
    auto ids  = 0;
    auto p    = player{c};
    auto runs = 0;
    with_loop(c, [&] { return lager::with_qt_event_loop{obj, pool}; }, [&](auto& loop) {
        p.post = [&](auto fn, int form) { post_form(loop, fn, form); };
        auto n = 0;
        while (n++ < 3 && c.more(2)) {
            auto m = 0;
            while (m++ < 6 && c.more(3)) {
                auto t = gen_task(c, ids, 2, {true, false, 0});
                c.log("post ", describe(*t));
                p.hand_over(t);
            }
            auto last     = std::make_shared<task>();
            last->id      = ids++;
            last->deed    = 1;
            auto finished = false;
            p.deed        = [&](int) {
                finished = true;
                loop.finish();
            };
            c.log("post finish #", last->id);
            p.hand_over(last);
            c.log("exec");
            app().exec();
            P_CHECK(finished, "left before it was finished");
            p.ok();
            ++runs;
        }
        for (int i = 0; i < 300 && !p.queue.empty(); ++i)
            QCoreApplication::processEvents();
    });
    p.ok();
    p.all_once(ids);
    c.nontrivial(ids >= 4 && runs > 0);
}

PBT_TARGET_N(qt_async, 3, "two asynchronous works and four functions", 200)
{
    app();
    auto pool = QThreadPool{};
    auto obj  = QObject{};
    pool.setMaxThreadCount(1 + c.small(4));
    auto ids = 0, as = 0;
    auto p      = player{c};
    auto asyncs = std::function<int(const task&)>{};
    asyncs      = [&](const task& t) {
        auto n = int{t.where == task::async};
        for (auto& x : t.children)
            n += asyncs(*x);
        return n;
    };
    auto late = c.flip();
    auto own  = std::vector<int>{};
    with_loop(c, [&] { return lager::with_qt_event_loop{obj, pool}; }, [&](auto& loop) {
        p.post  = [&](auto fn, int form) { post_form(loop, fn, form); };
        p.async = [&](std::function<void()> fn, int form) {
            auto us = form * 60;
            auto f  = [fn, us] {
                if (us)
                    std::this_thread::sleep_for(std::chrono::microseconds{us});
                fn();
            };
            switch (form) {
            case 0:
                loop.async(std::move(f));
                break;
            case 1:
                loop.async(std::function<void()>{f});
                break;
            case 2: {
                const auto g = std::function<void()>{f};
                loop.async(g);
                break;
            }
            default:
                loop.async(f);
            }
        };
        auto n = 0;
        while (n++ < 6 && c.more(3)) {
            auto t = gen_task(c, ids, 2, {true, true, 0});
            as += asyncs(*t);
            c.log("post ", describe(*t));
            if (t->where == task::async)
                own.push_back(t->id);
            p.hand_over(t);
            if (c.flip()) {
                QCoreApplication::processEvents();
                p.ok();
            }
        }
        if (!late)
            for (int i = 0; i < 100; ++i) {
                QCoreApplication::sendPostedEvents(&obj);
                pool.waitForDone();
            }
    });
    // the loop is gone: it waited for its asynchronous work
    {
        auto g = std::lock_guard{p.mutex};
        for (auto id : own) {
            auto ran = 0;
            for (auto x : p.async_ran)
                ran += x == id;
            P_EQ(ran, 1, "asynchronous work " << id << " when the loop is gone");
        }
    }
    if (late) {
        // what posts more work would use the loop that is gone
        QCoreApplication::removePostedEvents(&obj);
        p.ok();
        c.label("asynchronous work waited for", !own.empty());
        c.nontrivial(own.size() >= 2);
        return;
    }
    p.ok();
    p.all_once(ids);
    P_EQ((int) p.async_ran.size(), as, "asynchronous works that ran");
    P_EQ(p.alive->load(), 0, "functions kept after they ran");
    c.nontrivial(as >= 2 && ids >= 4);
}

// the loop lives in another thread, that of its object
PBT_TARGET_N(qt_thread, 1, "at least four functions", 200)
{
    app();
    struct worker : QThread
    {
        std::atomic<bool> up{false};
        void run() override
        {
            up = true;
            exec();
        }
    };
    auto pool = QThreadPool{};
    auto obj  = std::make_unique<QObject>();
    auto thr  = worker{};
    auto ids  = 0;
    auto p    = player{c};
    {
        auto loop = lager::with_qt_event_loop{*obj, pool};
        p.post    = [&](auto fn, int form) { post_form(loop, fn, form); };
        obj->moveToThread(&thr);
        thr.start();
        auto id = std::atomic<bool>{false};
        loop.post([&] {
            p.loop_thread = std::this_thread::get_id();
            id            = true;
        });
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds{20};
        while (!id && std::chrono::steady_clock::now() < end)
            std::this_thread::yield();
        P_CHECK(id, "a function posted to an object's thread did not run");
        auto total = 0;
        auto n     = 0;
        auto tasks = std::vector<task_ptr>{};
        while (n++ < 10 && c.more(5))
            tasks.push_back(gen_task(c, ids, 2, {true, false, 0}));
        total = ids;
        auto done = std::atomic<int>{0};
        p.ran_hook  = [&](int) { ++done; };
        // only this thread's own functions have an order that is known
        auto mine = std::vector<int>{};
        for (auto& t : tasks) {
            c.log("post ", describe(*t));
            mine.push_back(t->id);
            auto h = held{p.alive};
            loop.post([&p, t, h, &done] {
                if (std::this_thread::get_id() != p.loop_thread)
                    p.note("a task ran in another thread");
                p.ran.push_back(t->id);
                ++done;
                for (auto& x : t->children) {
                    x->where = task::local;
                    p.do_post(x, true);
                }
            });
        }
        while (done < total && std::chrono::steady_clock::now() < end)
            std::this_thread::yield();
        thr.quit();
        thr.wait();
        P_EQ(done.load(), total, "functions that ran");
        auto at = std::size_t{};
        for (auto x : p.ran)
            if (at < mine.size() && mine[at] == x)
                ++at;
        P_EQ(at, mine.size(), "order of the functions posted by one thread");
        c.nontrivial(total >= 4);
    }
    obj.reset();
    p.all_once(ids);
}
