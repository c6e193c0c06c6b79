// C18: the linear time-travel debugger.
#include "debug_model.hpp"

using pbt::Case;
using namespace dm;

namespace {

struct linear
{
    app init;
    std::vector<std::pair<int, app>> history;
    std::size_t cursor = 0;

    const app& at(std::size_t i) const { return i == 0 ? init : history[i - 1].second; }
    const app& current() const { return at(cursor); }
    void act(int id, app m)
    {
        history.resize(cursor);
        history.emplace_back(id, std::move(m));
        ++cursor;
    }
    void go(int i)
    {
        if (static_cast<std::size_t>(i) <= history.size())
            cursor = static_cast<std::size_t>(i);
    }
    void undo()
    {
        if (cursor > 0)
            --cursor;
    }
    void redo()
    {
        if (cursor < history.size())
            ++cursor;
    }
};

template <typename Model>
void compare(Case& c, const Model& m, const oracle<linear>& o)
{
    P_EQ(m.cursor, o.mem.cursor, "cursor");
    P_EQ(m.paused, o.paused, "paused");
    P_EQ(show_v(m.init), show_v(o.mem.init), "initial model");
    P_EQ(m.history.size(), o.mem.history.size(), "length of the history");
    P_EQ(m.summary(), o.mem.history.size(), "summary");
    P_EQ(m.pending.size(), o.pending.size(), "pending actions");
    for (std::size_t i = 0; i < o.pending.size(); ++i)
        P_EQ(m.pending[i].id, o.pending[i], "pending action ", i);
    for (std::size_t i = 0; i <= o.mem.history.size(); ++i) {
        auto [a, x] = m.lookup(i);
        P_EQ(show_v(x), show_v(o.mem.at(i)), "model of step ", i);
        P_EQ(a.has_value(), i > 0, "action of step ", i);
        if (i > 0)
            P_EQ(a->id, o.mem.history[i - 1].first, "action of step ", i);
    }
    for (auto k : {1, 2, 1000}) {
        auto threw = false;
        try {
            m.lookup(o.mem.history.size() + k);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        P_CHECK(threw, "looking beyond the history");
    }
    const app& now = m;
    P_EQ(show_v(now), show_v(o.mem.current()), "model shown");
    P_EQ(show_v(unwrap(m)), show_v(o.mem.current()), "model unwrapped");
}

event gen_event(Case& c, plans& ps, const linear& l, int depth)
{
    switch (c.below(12)) {
    case 0: return {event::undo};
    case 1: return {event::redo};
    case 2:
        return {event::go,
                c.chance(1, 6) ? static_cast<int>(c.below(100000))
                               : static_cast<int>(c.below(l.history.size() + 3))};
    case 3: return {event::pause};
    case 4:
    case 5: return {event::resume};
    default: return {event::action, gen_plan(c, ps, depth, false)};
    }
}

str describe(const plans& ps, event e)
{
    switch (e.kind) {
    case event::action: {
        std::function<str(int)> f = [&](int id) {
            auto s = "#" + std::to_string(id);
            for (auto& x : ps[id].effects) {
                s += "(";
                for (auto y : x)
                    s += f(y);
                s += ")";
            }
            return s;
        };
        return f(e.id);
    }
    case event::go: return "goto " + std::to_string(e.id);
    case event::undo: return "undo";
    case event::redo: return "redo";
    case event::pause: return "pause";
    case event::resume: return "resume";
    }
    return {};
}

template <typename D>
typename D::action command(event e)
{
    using D_ = D;
    switch (e.kind) {
    case event::action: return act{e.id};
    case event::go: return typename D_::goto_action{static_cast<std::size_t>(e.id)};
    case event::undo: return typename D_::undo_action{};
    case event::redo: return typename D_::redo_action{};
    case event::pause: return typename D_::pause_action{};
    case event::resume: return typename D_::resume_action{};
    }
    return {};
}

template <typename MakeStore>
void run_history(Case& c, bool with_effects, int depth, MakeStore make)
{
    plans ps;
    ps.reserve(100000);
    std::vector<str> trace;
    auto e    = env{1};
    auto loop = make_loop(trace);
    auto init = app{static_cast<int>(c.below(10)), {}};
    auto srv  = server{};
    auto o    = oracle<linear>{ps, with_effects, {init}};
    auto store = make(init, ps, trace, loop, e, srv);
    using D    = typename decltype(store)::second_type;
    auto h     = srv.get<D>();
    auto check = [&] {
        loop.run();
        o.run();
        P_EQ(trace, o.trace, "what ran");
        compare(c, store.first.get(), o);
        auto times = shows<D>(h->reader->get(), [&](auto& m) { compare(c, m, o); });
        P_EQ(times, 1, "times the server is asked to show the model");
    };
    check();
    auto commands = 0, acts = 0, back = 0;
    while (c.more(16) && ps.size() < 60) {
        auto ev = gen_event(c, ps, o.mem, depth);
        c.log(describe(ps, ev));
        if (ev.kind == event::action) {
            ++acts;
            if (o.mem.cursor < o.mem.history.size())
                ++back;
            store.first.dispatch(act{ev.id});
        } else {
            ++commands;
            h->ctx.dispatch(command<D>(ev));
        }
        o.post(ev);
        if (!c.chance(1, 4))
            check();
    }
    check();
    if (acts >= 2 && commands >= 2)
        c.nontrivial();
    if (back)
        c.label("acted after going back");
}

template <typename Store, typename D>
struct made
{
    Store first;
    using second_type = D;
};

} // namespace

PBT_TARGET(histories, 3, "at least 2 actions and 2 commands of the debugger")
{
    run_history(c, true, 2, [](app init, plans& ps, auto& trace, hand_loop loop, env& e, server& srv) {
        auto s = lager::make_store<act>(init,
                                        loop,
                                        lager::with_deps(std::ref(e)),
                                        lager::with_reducer(reducer_with_effects(ps, trace)),
                                        lager::with_debugger(srv));
        using D = lager::debugger<act, app, lager::deps<lager::dep::ref<env>>>;
        return made<decltype(s), D>{std::move(s)};
    });
}

PBT_TARGET(histories_without_effects, 1, "at least 2 actions and 2 commands of the debugger")
{
    run_history(c, false, 0, [](app init, plans& ps, auto& trace, hand_loop loop, env&, server& srv) {
        auto s = lager::make_store<act>(init,
                                        loop,
                                        lager::with_reducer(reducer_without_effects(ps, trace)),
                                        lager::with_debugger(srv));
        using D = lager::debugger<act, app, lager::deps<>>;
        return made<decltype(s), D>{std::move(s)};
    });
}

PBT_TARGET(transparent, 2, "at least 3 actions, one with an effect")
{
    transparency(c, [](server& srv) { return lager::with_debugger(srv); });
}

PBT_TARGET(transparent_twice, 1, "at least 3 actions, one with an effect")
{
    transparency(c, [](server& srv) {
        return zug::comp(lager::with_debugger(srv), lager::with_debugger(srv));
    });
}
