// C19: the tree debugger.
#include "debug_model.hpp"

#include <algorithm>
#include <map>
#include <set>

using pbt::Case;
using namespace dm;

namespace {

// Every step ever recorded, with the one it was made from
struct tree
{
    app init;
    struct node
    {
        int act;
        app model;
        int parent;
    };
    std::vector<node> nodes;
    int cursor = -1;
    std::vector<int> reachable; // known places to go to

    const app& at(int i) const { return i < 0 ? init : nodes[i].model; }
    const app& current() const { return at(cursor); }
    void act(int id, app m)
    {
        nodes.push_back({id, std::move(m), cursor});
        cursor = static_cast<int>(nodes.size()) - 1;
    }
    void go(int i)
    {
        if (i >= -1)
            cursor = i;
    }
    void undo()
    {
        if (cursor >= 0)
            cursor = nodes[cursor].parent;
    }
    void redo() {}
};

using path = std::vector<std::pair<std::size_t, std::size_t>>;

template <typename Cursor>
path to_path(const Cursor& c)
{
    path p;
    for (auto& x : c)
        p.emplace_back(x.branch, x.step);
    return p;
}
template <typename D>
typename D::cursor_t to_cursor(const path& p)
{
    auto c = typename D::cursor_t{};
    for (auto [b, s] : p)
        c = c.push_back({b, s});
    return c;
}
str show_p(const path& p)
{
    str s = "/";
    for (auto [b, x] : p)
        s += std::to_string(b) + ":" + std::to_string(x) + "/";
    return s;
}

// positions of the steps in the model of the debugger
template <typename Branches>
void enumerate(const Branches& bs, path here, std::vector<std::pair<path, const void*>>& out)
{
    for (std::size_t b = 0; b < bs.size(); ++b)
        for (std::size_t s = 0; s < bs[b].size(); ++s) {
            auto p = here;
            p.emplace_back(b, s);
            auto& step = *bs[b][s];
            out.emplace_back(p, &step);
            enumerate(step.branches, p, out);
        }
}

// the summary: runs of steps between the ones that have branches
template <typename Branches>
str summarize(const Branches& bs)
{
    str r = "[";
    for (auto& h : bs) {
        auto n = 0;
        r += "(";
        for (auto& s : h) {
            if (s->branches.empty())
                ++n;
            else {
                r += std::to_string(n) + summarize(s->branches);
                n = 0;
            }
        }
        r += std::to_string(n) + "[])";
    }
    return r + "]";
}
template <typename Summary>
str show_summary(const Summary& bs)
{
    str r = "[";
    for (auto& h : bs) {
        r += "(";
        for (auto& s : h)
            r += std::to_string(s->steps) + show_summary(s->branches);
        r += ")";
    }
    return r + "]";
}

struct places
{
    std::vector<path> of; // of each node
};

template <typename D>
void compare(Case& c, const typename D::model& m, oracle<tree>& o, places& pl)
{
    P_EQ(m.paused, o.paused, "paused");
    P_EQ(show_v(m.init), show_v(o.mem.init), "initial model");
    P_EQ(m.pending.size(), o.pending.size(), "pending actions");
    for (std::size_t i = 0; i < o.pending.size(); ++i)
        P_EQ(m.pending[i].id, o.pending[i], "pending action ", i);
    // what it has
    std::vector<std::pair<path, const void*>> all;
    enumerate(m.branches, {}, all);
    P_EQ(all.size(), o.mem.nodes.size(), "steps recorded");
    std::map<int, path> where;
    for (auto& [p, step] : all) {
        auto [a, x] = m.lookup(to_cursor<D>(p));
        P_CHECK(a.has_value(), "step without action");
        P_CHECK(where.emplace(a->id, p).second, "recorded twice");
    }
    for (std::size_t i = 0; i < o.mem.nodes.size(); ++i) {
        auto& n = o.mem.nodes[i];
        auto it = where.find(n.act);
        P_CHECK(it != where.end(), "step of action ", n.act, " is missing");
        auto [a, x] = m.lookup(to_cursor<D>(it->second));
        P_EQ(show_v(x), show_v(n.model), "model recorded for action ", n.act);
        if (i < pl.of.size())
            P_EQ(show_p(it->second), show_p(pl.of[i]), "place of action ", n.act);
        else {
            // at the end of a branch it goes on, elsewhere there is a new one
            auto& got  = it->second;
            auto from  = n.parent < 0 ? path{} : pl.of[n.parent];
            auto next  = from;
            auto taken = [&](const path& x) {
                return std::find(pl.of.begin(), pl.of.end(), x) != pl.of.end();
            };
            if (!next.empty())
                ++next.back().second;
            if (!next.empty() && !taken(next))
                P_EQ(show_p(got), show_p(next), "place of new action ", n.act);
            else {
                P_CHECK(got.size() == from.size() + 1 &&
                            std::equal(from.begin(), from.end(), got.begin()) &&
                            got.back().second == 0 && !taken(got),
                        "new action ",
                        n.act,
                        " went to ",
                        show_p(got),
                        " from ",
                        show_p(from));
            }
            pl.of.push_back(got);
        }
    }
    auto [a, x] = m.lookup({});
    P_CHECK(!a && x == o.mem.init, "the root");
    P_EQ(show_p(to_path(m.cursor)),
         show_p(o.mem.cursor < 0 ? path{} : pl.of[o.mem.cursor]),
         "cursor");
    const app& now = m;
    P_EQ(show_v(now), show_v(o.mem.current()), "model shown");
    P_EQ(show_v(unwrap(m)), show_v(o.mem.current()), "model unwrapped");
    P_EQ(show_summary(m.summary()), summarize(m.branches), "summary");
}

template <typename MakeStore>
void run_history(Case& c, bool with_effects, int depth, MakeStore make)
{
    plans ps;
    ps.reserve(100000);
    std::vector<str> trace;
    auto e    = env{1};
    auto loop = make_loop(trace);
    auto init = app{static_cast<int>(c.below(10)), {}};
    auto srv  = server{};
    auto o    = oracle<tree>{ps, with_effects, {init}};
    auto pl   = places{};
    auto store = make(init, ps, trace, loop, e, srv);
    using D    = typename decltype(store)::second_type;
    auto h     = srv.get<D>();
    auto check = [&] {
        loop.run();
        o.run();
        P_EQ(trace, o.trace, "what ran");
        compare<D>(c, store.first.get(), o, pl);
        auto times = shows<D>(h->reader->get(),
                              [&](auto& m) { compare<D>(c, m, o, pl); });
        P_EQ(times, 1, "times the server is asked to show the model");
    };
    auto missing = [&](path p) {
        if (p.empty())
            return false;
        auto prefixes = std::set<path>(pl.of.begin(), pl.of.end());
        return prefixes.count(p) == 0;
    };
    check();
    auto commands = 0, acts = 0, forks = 0;
    auto settled = true; // no events in between that could add places
    auto send    = [&](typename D::action a, event ev) {
        h->ctx.dispatch(a);
        o.post(ev);
        ++commands;
    };
    while (c.more(16) && ps.size() < 60) {
        switch (c.below(10)) {
        case 0:
        case 1:
            c.log("undo");
            send(typename D::undo_action{}, {event::undo});
            break;
        case 2:
        case 3: {
            auto i = static_cast<int>(c.below(pl.of.size() + 1)) - 1;
            auto p = i < 0 ? path{} : pl.of[i];
            c.log("goto", show_p(p));
            send(typename D::goto_action{to_cursor<D>(p)}, {event::go, i});
            break;
        }
        case 4: {
            if (!settled)
                break;
            auto p = pl.of.empty() || c.chance(1, 4) ? path{} : c.pick(pl.of);
            auto k = c.below(3);
            for (std::size_t i = 0; i <= k; ++i)
                switch (p.empty() ? 0 : c.below(3)) {
                case 0: p.emplace_back(c.below(4), c.below(4)); break;
                case 1: p.back().first = c.chance(1, 8) ? c.below(1000000) : c.below(4); break;
                case 2: p.back().second = c.chance(1, 8) ? c.below(1000000) : c.below(6); break;
                }
            if (!missing(p))
                break;
            c.log("goto nowhere", show_p(p));
            auto threw = false;
            try {
                store.first.get().lookup(to_cursor<D>(p));
            } catch (const std::runtime_error&) {
                threw = true;
            }
            P_CHECK(threw, "looking up a place that does not exist");
            send(typename D::goto_action{to_cursor<D>(p)}, {event::go, -2});
            break;
        }
        case 5:
            c.log("pause");
            send(typename D::pause_action{}, {event::pause});
            break;
        case 6:
            c.log("resume");
            settled = false;
            send(typename D::resume_action{}, {event::resume});
            break;
        default: {
            auto id = gen_plan(c, ps, depth, false);
            c.log("act", id);
            ++acts;
            settled = false;
            store.first.dispatch(act{id});
            o.post({event::action, id});
        }
        }
        if (!c.chance(1, 4)) {
            check();
            settled = true;
        }
    }
    check();
    std::set<int> parents;
    for (auto& n : o.mem.nodes)
        if (!parents.insert(n.parent).second)
            ++forks;
    if (acts >= 3 && commands >= 2 && forks >= 1)
        c.nontrivial();
    if (forks >= 2)
        c.label("at least two forks");
}

template <typename Store, typename D>
struct made
{
    Store first;
    using second_type = D;
};

} // namespace

PBT_TARGET(tree_histories, 3, "at least 3 actions, 2 commands and a fork")
{
    run_history(c, true, 2, [](app init, plans& ps, auto& trace, hand_loop loop, env& e, server& srv) {
        auto s = lager::make_store<act>(init,
                                        loop,
                                        lager::with_deps(std::ref(e)),
                                        lager::with_reducer(reducer_with_effects(ps, trace)),
                                        lager::with_debugger<lager::tree_debugger>(srv));
        using D = lager::tree_debugger<act, app, lager::deps<lager::dep::ref<env>>>;
        return made<decltype(s), D>{std::move(s)};
    });
}

PBT_TARGET(tree_histories_without_effects, 2, "at least 3 actions, 2 commands and a fork")
{
    run_history(c, false, 0, [](app init, plans& ps, auto& trace, hand_loop loop, env&, server& srv) {
        auto s = lager::make_store<act>(init,
                                        loop,
                                        lager::with_reducer(reducer_without_effects(ps, trace)),
                                        lager::with_debugger<lager::tree_debugger>(srv));
        using D = lager::tree_debugger<act, app, lager::deps<>>;
        return made<decltype(s), D>{std::move(s)};
    });
}

PBT_TARGET(transparent_tree, 2, "at least 3 actions, one with an effect")
{
    transparency(c, [](server& srv) { return lager::with_debugger<lager::tree_debugger>(srv); });
}

PBT_TARGET(transparent_over_tree, 1, "at least 3 actions, one with an effect")
{
    transparency(c, [](server& srv) {
        return zug::comp(lager::with_debugger<lager::tree_debugger>(srv), lager::with_debugger(srv));
    });
}
