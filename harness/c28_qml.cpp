#include "c28.hpp"

#include <QGuiApplication>
#include <QQuickItem>
#include <QQuickWindow>

#include <lager/event_loop/qml.hpp>

using namespace c28;

namespace c28 {
QGuiApplication& app();
}

namespace {

struct item : lager::event_loop_quick_item
{
    int steps = 0;
    void step() override
    {
        ++steps;
        lager::event_loop_quick_item::step();
    }
};

template <typename Body>
void with_loop(Case& c, item& it, Body&& body)
{
    switch (c.small(3)) {
    case 0:
        body(it);
        break;
    case 1: {
        auto l = lager::with_qml_event_loop{it};
        body(l);
        break;
    }
    default: {
        c.log("through a context");
        auto store = lager::make_store<int>(
            0,
            lager::with_qml_event_loop{it},
            lager::with_reducer([](int m, int) { return m; }));
        auto ctx = lager::context<int>{store};
        body(ctx.loop());
    }
    }
}

template <typename Fn>
bool throws(Fn&& fn)
{
    try {
        fn();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

// c28_qt.cpp makes the application
QQuickWindow& window()
{
    static auto w = [] {
        app();
        QQuickWindow::setSceneGraphBackend(QSGRendererInterface::Software);
        auto w = new QQuickWindow;
        w->resize(16, 16);
        return w;
    }();
    return *w;
}

} // namespace

PBT_TARGET(qml_posts, 3, "at least four functions")
{
    app();
    auto it  = item{};
    auto ids = 0;
    auto p   = player{c};
    p.by_thread = true;
    with_loop(c, it, [&](auto& loop) {
        p.post = [&](auto fn, int form) { post_form(loop, fn, form); };
        P_CHECK(throws([&] { loop.pause(); }), "pause is not supported");
        P_CHECK(throws([&] { loop.resume(); }), "resume is not supported");
        P_CHECK(throws([&] { loop.finish(); }), "finish is not supported");
        P_CHECK(throws([&] { loop.async(std::function<void()>{[] {}}); }),
                "async is not supported");
        auto n = 0;
        while (n++ < 15 && c.more(7)) {
            switch (c.small(3)) {
            case 0: {
                auto t = gen_task(c, ids, 2, {true, false, 0});
                c.log("post ", describe(*t));
                auto before = p.ran.size();
                p.hand_over(t);
                P_EQ(p.ran.size(), before, "ran while posting");
                break;
            }
            case 1: {
                auto before = p.ran.size();
                auto local  = std::size_t{};
                for (auto& t : p.queue)
                    local += t->where == task::local;
                c.log("step");
                it.step();
                P_CHECK(p.ran.size() - before >= local,
                        "functions posted in the loop's thread left");
                break;
            }
            default:
                c.log("process events");
                QCoreApplication::processEvents();
            }
            p.ok();
        }
        for (int i = 0; i < 300 && !p.queue.empty(); ++i) {
            QCoreApplication::processEvents();
            it.step();
        }
    });
    p.ok();
    p.all_once(ids);
    P_EQ(p.alive->load(), 0, "functions kept after they ran");
    c.nontrivial(ids >= 4);
}

// in a window, that calls step() by itself
PBT_TARGET_N(qml_window, 1, "at least four functions", 20)
{
    auto& w  = window();
    auto it  = item{};
    auto ids = 0;
    auto p   = player{c};
    p.by_thread = true;
    it.setParentItem(w.contentItem());
    if (c.flip())
        it.setFlag(QQuickItem::ItemHasContents);
    w.show();
    auto wait = [&] {
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds{15};
        while (!p.queue.empty() && std::chrono::steady_clock::now() < end) {
            QCoreApplication::processEvents(QEventLoop::AllEvents, 5);
            p.ok();
        }
        P_CHECK(p.queue.empty(), "posted functions did not run in a window");
    };
    with_loop(c, it, [&](auto& loop) {
        p.post = [&](auto fn, int form) { post_form(loop, fn, form); };
        auto n = 0;
        while (n++ < 8 && c.more(4)) {
            switch (c.small(8)) {
            case 6:
                c.log("wait");
                wait();
                break;
            case 7: {
                c.log("hide and wait");
                wait();
                w.hide();
                auto t = gen_task(c, ids, 1, {true, false, 0});
                c.log("post ", describe(*t));
                p.hand_over(t);
                wait();
                w.show();
                break;
            }
            default: {
                auto t = gen_task(c, ids, 2, {true, false, 0});
                c.log("post ", describe(*t));
                p.hand_over(t);
                p.ok();
            }
            }
        }
        wait();
    });
    p.ok();
    p.all_once(ids);
    c.nontrivial(ids >= 4);
}
