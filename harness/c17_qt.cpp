// C17 on Qt: actions dispatched from several threads while the application's
// thread processes events.
#include "c17.hpp"

#include <QCoreApplication>
#include <QElapsedTimer>
#include <QEventLoop>
#include <QObject>

#include <lager/event_loop/qt.hpp>

using namespace c17;

static QCoreApplication& app()
{
    static int argc     = 1;
    static char name[]  = "c17";
    static char* argv[] = {name, nullptr};
    static auto instance = new QCoreApplication{argc, argv};
    return *instance;
}

PBT_TARGET_N(qt, 1, "at least two threads and six actions", 400)
{
    auto s          = script{};
    s.futures       = !c.chance(1, 5);
    s.transactional = c.chance(1, 8);
    s.can_async     = true;
    s.gen(c);
    c.log(s.futures ? "futures" : "no futures",
          s.transactional ? ", transactional" : "");
    s.log(c);
    app();
    auto r   = run{s};
    auto got = model_t{};
    {
        auto pool = QThreadPool{};
        auto obj  = QObject{};
        r.loop_thread = std::this_thread::get_id();
        with_store(r, lager::with_qt_event_loop{obj, pool}, [&](auto& store) {
            auto ctx = run::context_t{store};
            auto ts  = std::vector<std::thread>{};
            r.alive  = s.threads;
            for (int t = 0; t < s.threads; ++t)
                ts.emplace_back([&, t] {
                    r.thread_body(t, ctx);
                    --r.alive;
                });
            while (r.alive > 0)
                QCoreApplication::processEvents();
            for (auto& t : ts)
                t.join();
            r.take_all(ctx);
            // each round runs what was posted before it; futures that wait
            // for others can make long chains
            auto seen = r.events.size();
            for (int idle = 0; idle < 60; ++idle) {
                QCoreApplication::sendPostedEvents(&obj);
                pool.waitForDone();
                if (r.events.size() != seen) {
                    seen = r.events.size();
                    idle = 0;
                }
            }
            QCoreApplication::sendPostedEvents(&obj);
            if (s.transactional)
                lager::commit(store);
            got = store.get();
        });
        QCoreApplication::sendPostedEvents(&obj);
    }
    r.check(c, got);
}
