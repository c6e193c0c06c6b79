// C18: long histories, and much that is held back
#include "debug_model.hpp"

#include <cstdint>

using pbt::Case;
using namespace dm;

namespace {

struct step_act
{
    int by;
    friend bool operator==(step_act a, step_act b) { return a.by == b.by; }
};
using num = std::uint32_t;
num after(num m, int by) { return m * 31u + static_cast<num>(by) + 7u; }

using D = lager::debugger<step_act, num, lager::deps<>>;

struct book
{
    num init;
    std::vector<std::pair<int, num>> steps;
    std::size_t cursor = 0;
    bool paused        = false;
    std::vector<int> pending;

    num at(std::size_t i) const { return i ? steps[i - 1].second : init; }
    void act(int by)
    {
        if (paused) {
            pending.push_back(by);
            return;
        }
        auto m = after(at(cursor), by);
        steps.resize(cursor);
        steps.emplace_back(by, m);
        ++cursor;
    }
};

} // namespace

PBT_TARGET(long_histories, 1, "more than 100 steps recorded, and some of them gone back")
{
    std::vector<str> trace;
    auto loop  = make_loop(trace);
    auto o     = book{c.below(1000)};
    auto srv   = server{};
    auto ran   = std::size_t{};
    auto acted = std::size_t{};
    auto store = lager::make_store<step_act>(o.init,
                                             loop,
                                             lager::with_reducer([&](num m, step_act a) {
                                                 ++ran;
                                                 return after(m, a.by);
                                             }),
                                             lager::with_debugger(srv));
    auto h = srv.get<D>();

    auto all = [&](const D::model& m) {
        P_EQ(m.cursor, o.cursor, "cursor");
        P_EQ(m.paused, o.paused, "paused");
        P_EQ(m.init, o.init, "initial model");
        P_EQ(m.summary(), o.steps.size(), "summary");
        P_EQ(m.pending.size(), o.pending.size(), "pending actions");
        for (std::size_t i = 0; i < o.pending.size(); ++i)
            P_EQ(m.pending[i].by, o.pending[i], "pending action ", i);
        for (std::size_t i = 0; i <= o.steps.size(); ++i) {
            auto [a, x] = m.lookup(i);
            P_EQ(x, o.at(i), "model of step ", i);
            P_EQ(a.has_value(), i > 0, "action of step ", i);
            if (a)
                P_EQ(a->by, o.steps[i - 1].first, "action of step ", i);
        }
        auto threw = false;
        try {
            m.lookup(o.steps.size() + 1);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        P_CHECK(threw, "looking beyond the history");
        const num& now = m;
        P_EQ(now, o.at(o.cursor), "model shown");
    };
    auto many = [&] {
        return c.chance(1, 3) ? 1 + c.below(500) : 1 + c.below(10);
    };
    auto longest = std::size_t{}, back = std::size_t{};
    for (int i = 0; i < 14 && c.more(8); ++i) {
        switch (c.below(8)) {
        case 0: {
            auto n = many();
            c.log("undo ", n);
            for (; n > 0; --n) {
                h->ctx.dispatch(D::undo_action{});
                if (o.cursor > 0)
                    --o.cursor, ++back;
            }
            break;
        }
        case 1: {
            auto n = many();
            c.log("redo ", n);
            for (; n > 0; --n) {
                h->ctx.dispatch(D::redo_action{});
                if (o.cursor < o.steps.size())
                    ++o.cursor;
            }
            break;
        }
        case 2: {
            auto to = static_cast<std::size_t>(c.below(o.steps.size() + 2));
            c.log("goto ", to);
            h->ctx.dispatch(D::goto_action{to});
            if (to <= o.steps.size())
                o.cursor = to, ++back;
            break;
        }
        case 3:
            c.log("pause");
            h->ctx.dispatch(D::pause_action{});
            o.paused = true;
            break;
        case 4: {
            c.log("resume");
            h->ctx.dispatch(D::resume_action{});
            auto p   = std::move(o.pending);
            o.paused = false;
            o.pending.clear();
            for (auto by : p)
                ++acted, o.act(by);
            break;
        }
        default: {
            auto n    = many();
            auto by   = static_cast<int>(c.below(50));
            auto each = c.below(3);
            c.log("act ", by, " + ", each, ", ", n, " times");
            for (; n > 0; --n, by += each) {
                store.dispatch(step_act{by});
                if (!o.paused)
                    ++acted;
                o.act(by);
            }
        }
        }
        loop.run();
        P_EQ(ran, acted, "times the reducer ran");
        P_EQ(static_cast<const num&>(store.get()), o.at(o.cursor), "model shown");
        P_EQ(h->reader->get().pending.size(), o.pending.size(), "pending actions");
        longest = std::max(longest, o.steps.size());
        if (c.chance(1, 3))
            all(store.get());
    }
    all(store.get());
    all(h->reader->get());
    c.nontrivial(longest > 100 && back);
    if (o.pending.size() > 100)
        c.label("more than 100 held back");
}
