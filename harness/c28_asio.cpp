#include "c28.hpp"

#include <lager/event_loop/boost_asio.hpp>

#include <boost/asio/any_io_executor.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/strand.hpp>
#include <boost/asio/thread_pool.hpp>

using namespace c28;

namespace {

// stops: what finish() calls
template <typename Loop, typename Body>
void with_loop(Case& c, Loop loop, Body&& body)
{
    if (c.flip()) {
        c.log("through a context");
        auto store = lager::make_store<int>(
            0, loop, lager::with_reducer([](int m, int) { return m; }));
        auto ctx = lager::context<int>{store};
        body(ctx.loop());
    } else
        body(loop);
}

template <typename Executor>
void stepping(Case& c, boost::asio::io_context& io, Executor ex, bool exact)
{
    auto stops = 0, finishes = 0;
    auto stop  = c.flip();
    auto run = [&](auto& loop) {
        auto ids  = 0;
        auto p    = player{c};
        p.post    = [&](auto fn, int form) { post_form(loop, fn, form); };
        auto upto = std::size_t{};
        auto deed = 0;
        p.deed    = [&](int d) {
            ++deed;
            switch (d) {
            case 1:
                ++finishes;
                loop.finish();
                break;
            case 2:
                loop.pause();
                break;
            default:
                loop.resume();
            }
        };
        auto n = 0;
        while (n++ < 15 && c.more(7)) {
            switch (c.small(4)) {
            case 0: {
                auto t = gen_task(c, ids, 2, {true, false, 3});
                if (t->where == task::async)
                    t->where = task::remote;
                c.log("post ", describe(*t));
                auto before = p.ran.size();
                p.hand_over(t);
                P_EQ(p.ran.size(), before, "ran while posting");
                break;
            }
            case 1: {
                auto before = p.ran.size();
                auto had    = p.queue.size();
                io.restart();
                auto k = io.poll_one();
                c.log("poll_one ", k);
                if (exact)
                    P_EQ(p.ran.size() - before, had ? 1u : 0u);
                else
                    P_CHECK(p.ran.size() > before || had == 0);
                break;
            }
            case 2: {
                auto before = finishes;
                io.restart();
                io.poll();
                c.log("poll");
                if (!stop || finishes == before)
                    P_EQ(p.queue.size(), 0u, "left after poll");
                break;
            }
            default:
                loop.finish();
                ++finishes;
                c.log("finish");
            }
            p.ok();
            P_EQ(stops, stop ? finishes : 0, "calls of the stop function");
        }
        for (int i = 0; i < 300 && !p.queue.empty(); ++i) {
            io.restart();
            io.run();
            p.ok();
        }
        p.all_once(ids);
        P_EQ(p.alive->load(), 0, "functions kept after they ran");
        c.nontrivial(ids >= 4);
        c.label("finished while running", deed > 0);
        (void) upto;
    };
    auto stop_fn = std::function<void()>{[&] {
        ++stops;
        io.stop();
    }};
    if (stop)
        with_loop(c, lager::with_boost_asio_event_loop<Executor>{ex, stop_fn}, run);
    else
        with_loop(c, lager::with_boost_asio_event_loop<Executor>{ex}, run);
}

template <typename Executor>
void asynchronous(Case& c, boost::asio::io_context& io, Executor ex)
{
    with_loop(c, lager::with_boost_asio_event_loop<Executor>{ex}, [&](auto& loop) {
        auto ids = 0;
        auto p   = player{c};
        p.post   = [&](auto fn, int form) { post_form(loop, fn, form); };
        p.async  = [&](std::function<void()> fn, int form) {
            auto spin = form * 40;
            auto h    = held{p.alive};
            auto f    = [fn, spin, h] {
                if (spin)
                    std::this_thread::sleep_for(std::chrono::microseconds{spin});
                fn();
            };
            switch (form) {
            case 0:
                loop.async(std::move(f));
                break;
            case 1:
                loop.async(std::function<void()>{f});
                break;
            default:
                loop.async(std::function<void()>{std::move(f)});
            }
        };
        p.deed = [&](int d) { d == 1 ? loop.pause() : loop.resume(); };
        auto asyncs = std::function<int(const task&)>{};
        asyncs      = [&](const task& t) {
            auto n = int{t.where == task::async};
            for (auto& x : t.children)
                n += asyncs(*x);
            return n;
        };
        auto n = 0, as = 0;
        while (n++ < 5 && c.more(3)) {
            auto k = 0;
            do {
                auto t = gen_task(c, ids, 3, {true, true, 2});
                as += asyncs(*t);
                c.log("post ", describe(*t));
                p.hand_over(t);
            } while (k++ < 4 && c.more(2));
            // asynchronous work keeps the loop going
            c.log("run");
            io.restart();
            io.run();
            p.ok();
            P_EQ(p.alive->load(), 0, "functions alive after the loop ended");
            p.all_once(ids);
        }
        P_EQ((int) p.async_ran.size(), as, "asynchronous works that ran");
        c.nontrivial(as >= 2 && ids >= 4);
        c.label("asynchronous work", as > 0);
    });
}

} // namespace

PBT_TARGET(asio_posts, 3, "at least four functions")
{
    auto io = boost::asio::io_context{};
    switch (c.small(3)) {
    case 0:
        c.log("context");
        stepping(c, io, io.get_executor(), true);
        break;
    case 1:
        c.log("strand");
        stepping(c, io, boost::asio::make_strand(io), false);
        break;
    default:
        c.log("any executor");
        stepping(c, io, boost::asio::any_io_executor{io.get_executor()}, true);
    }
}

PBT_TARGET_N(asio_async, 3, "two asynchronous works and four functions", 200)
{
    // a thread that ends may hold the strand a moment longer: these live on
    static auto& shared = *new boost::asio::io_context{};
    auto io             = boost::asio::io_context{};
    switch (c.small(3)) {
    case 0:
        c.log("context");
        asynchronous(c, io, io.get_executor());
        break;
    case 1:
        c.log("strand");
        asynchronous(c, shared, boost::asio::make_strand(shared));
        break;
    default:
        c.log("any executor");
        asynchronous(
            c, shared, boost::asio::any_io_executor{shared.get_executor()});
    }
}
