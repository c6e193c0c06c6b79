// C17 on Boost.Asio: a single-threaded context, and a strand run by several
#include "c17.hpp"

#include <lager/event_loop/boost_asio.hpp>

#include <boost/asio/io_context.hpp>
#include <boost/asio/strand.hpp>

using namespace c17;

namespace {

template <typename Executor>
void asio_case(Case& c,
               const script& s,
               boost::asio::io_context& io,
               Executor ex,
               int runners)
{
    auto r   = run{s};
    auto got = model_t{};
    // what keeps the loop going while threads dispatch
    auto guard = boost::asio::make_work_guard(io);
    with_store(r, lager::with_boost_asio_event_loop{ex}, [&](auto& store) {
        auto ctx = run::context_t{store};
        auto ts  = std::vector<std::thread>{};
        r.alive  = s.threads;
        for (int t = 0; t < s.threads; ++t)
            ts.emplace_back([&, t] {
                r.thread_body(t, ctx);
                if (--r.alive == 0) {
                    r.take_all(ctx);
                    guard.reset();
                }
            });
        auto rs = std::vector<std::thread>{};
        for (int i = 1; i < runners; ++i)
            rs.emplace_back([&] { io.run(); });
        if (runners == 1)
            r.loop_thread = {};
        io.run();
        for (auto& t : ts)
            t.join();
        for (auto& t : rs)
            t.join();
        if (s.transactional)
            lager::commit(store);
        got = store.get();
    });
    r.check(c, got);
}

} // namespace

PBT_TARGET_N(asio, 3, "at least two threads and six actions", 400)
{
    auto s          = script{};
    s.futures       = !c.chance(1, 5);
    s.transactional = c.chance(1, 8);
    s.can_async     = true;
    s.gen(c);
    c.log(s.futures ? "futures" : "no futures",
          s.transactional ? ", transactional" : "");
    s.log(c);
    auto io = boost::asio::io_context{};
    asio_case(c, s, io, io.get_executor(), 1);
}

PBT_TARGET_N(asio_strand, 2, "at least two threads and six actions", 400)
{
    auto s      = script{};
    s.futures   = !c.chance(1, 5);
    s.can_async = true;
    s.gen(c);
    auto runners = 1 + c.small(3);
    c.log(runners, " run the context", s.futures ? ", futures" : ", no futures");
    s.log(c);
    // A thread that ends its asynchronous work still holds the strand for a
    // moment after it let the loop go: these live on.
    static auto& io = *new boost::asio::io_context{};
    io.restart();
    asio_case(c, s, io, boost::asio::make_strand(io), runners);
}
