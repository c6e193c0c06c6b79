// C19: long branches, and many of them
#include "debug_model.hpp"

#include <algorithm>
#include <cstdint>
#include <set>

using pbt::Case;
using namespace dm;

namespace {

struct step_act
{
    int by;
    friend bool operator==(step_act a, step_act b) { return a.by == b.by; }
};
using num = std::uint32_t;
num after(num m, int by) { return m * 31u + static_cast<num>(by) + 7u; }

using D    = lager::tree_debugger<step_act, num, lager::deps<>>;
using path = std::vector<std::pair<std::size_t, std::size_t>>;

D::cursor_t to_cursor(const path& p)
{
    auto c = D::cursor_t{};
    for (auto [b, s] : p)
        c = c.push_back({b, s});
    return c;
}
str show_p(const path& p)
{
    str s = "/";
    for (auto [b, x] : p)
        s += std::to_string(b) + ":" + std::to_string(x) + "/";
    return s;
}

struct node
{
    int by;
    num model;
    int parent;
};

struct book
{
    num init;
    std::vector<node> steps;
    std::vector<path> place; // those that are known
    std::set<path> taken;
    int cursor  = -1;
    bool paused = false;
    std::vector<int> pending;

    num at(int i) const { return i < 0 ? init : steps[i].model; }
    path where(int i) const { return i < 0 ? path{} : place[i]; }
    void act(int by)
    {
        if (paused) {
            pending.push_back(by);
            return;
        }
        auto m = after(at(cursor), by);
        steps.push_back({by, m, cursor});
        cursor = static_cast<int>(steps.size()) - 1;
    }
    // what was just recorded is, one step after the other, at the end of a
    // branch that is new unless the first of them was made at such an end
    void learn(Case& c, const path& last)
    {
        auto k = steps.size() - place.size();
        if (!k)
            return;
        P_CHECK(!last.empty() && last.back().second + 1 >= k,
                k, " new actions end in ", show_p(last));
        auto got = last;
        got.back().second -= k - 1;
        auto from = where(steps[place.size()].parent);
        auto next = from;
        if (!next.empty())
            ++next.back().second;
        if (!next.empty() && !taken.count(next))
            P_EQ(show_p(got), show_p(next), "place of a new action");
        else
            P_CHECK(got.size() == from.size() + 1 &&
                        std::equal(from.begin(), from.end(), got.begin()) &&
                        got.back().second == 0 && !taken.count(got),
                    "a new action went to ", show_p(got), " from ", show_p(from));
        for (; k > 0; --k, ++got.back().second) {
            place.push_back(got);
            P_CHECK(taken.insert(got).second, show_p(got), " was taken");
        }
    }
};

} // namespace

PBT_TARGET(long_trees, 1, "a branch of more than 100 steps, or more than 40 branches from a step")
{
    std::vector<str> trace;
    auto loop  = make_loop(trace);
    auto o     = book{c.below(1000)};
    auto srv   = server{};
    auto ran   = std::size_t{};
    auto acted = std::size_t{};
    auto store = lager::make_store<step_act>(o.init,
                                             loop,
                                             lager::with_reducer([&](num m, step_act a) {
                                                 ++ran;
                                                 return after(m, a.by);
                                             }),
                                             lager::with_debugger<lager::tree_debugger>(srv));
    auto h = srv.get<D>();

    auto count = [](auto&& self, auto& bs) -> std::size_t {
        auto n = std::size_t{};
        for (auto& b : bs)
            for (auto& s : b)
                n += 1 + self(self, s->branches);
        return n;
    };
    auto all = [&](const D::model& m) {
        P_EQ(m.paused, o.paused, "paused");
        P_EQ(m.init, o.init, "initial model");
        P_EQ(m.pending.size(), o.pending.size(), "pending actions");
        for (std::size_t i = 0; i < o.pending.size(); ++i)
            P_EQ(m.pending[i].by, o.pending[i], "pending action ", i);
        P_EQ(count(count, m.branches), o.steps.size(), "steps recorded");
        for (std::size_t i = 0; i < o.steps.size(); ++i) {
            auto [a, x] = m.lookup(to_cursor(o.place[i]));
            P_CHECK(a.has_value(), "no action in ", show_p(o.place[i]));
            P_EQ(a->by, o.steps[i].by, "action in ", show_p(o.place[i]));
            P_EQ(x, o.steps[i].model, "model in ", show_p(o.place[i]));
        }
        auto [a, x] = m.lookup({});
        P_CHECK(!a && x == o.init, "the root");
        const num& now = m;
        P_EQ(now, o.at(o.cursor), "model shown");
    };
    auto settle = [&] {
        loop.run();
        P_EQ(ran, acted, "times the reducer ran");
        const D::model& m = store.get();
        auto here         = path{};
        for (auto& x : m.cursor)
            here.emplace_back(x.branch, x.step);
        o.learn(c, here);
        P_EQ(show_p(here), show_p(o.where(o.cursor)), "cursor");
        P_EQ(static_cast<const num&>(m), o.at(o.cursor), "model shown");
        P_EQ(m.pending.size(), o.pending.size(), "pending actions");
    };
    auto act = [&](int by) {
        store.dispatch(step_act{by});
        if (!o.paused)
            ++acted;
        o.act(by);
    };
    auto go = [&](int i) {
        h->ctx.dispatch(D::goto_action{to_cursor(o.where(i))});
        o.cursor = i;
    };
    auto many = [&] {
        return c.chance(1, 3) ? 1 + c.below(300) : 1 + c.below(10);
    };
    auto longest = std::size_t{}, widest = std::size_t{};
    for (int i = 0; i < 14 && c.more(8); ++i) {
        switch (c.below(9)) {
        case 0: {
            auto n = many();
            c.log("undo ", n);
            for (; n > 0; --n) {
                h->ctx.dispatch(D::undo_action{});
                if (o.cursor >= 0)
                    o.cursor = o.steps[o.cursor].parent;
            }
            break;
        }
        case 1:
        case 2: {
            auto to = static_cast<int>(c.below(o.steps.size() + 1)) - 1;
            c.log("goto ", show_p(o.where(to)));
            go(to);
            break;
        }
        case 3:
            c.log("pause");
            h->ctx.dispatch(D::pause_action{});
            o.paused = true;
            break;
        case 4: {
            c.log("resume");
            h->ctx.dispatch(D::resume_action{});
            auto p   = std::move(o.pending);
            o.paused = false;
            o.pending.clear();
            for (auto by : p)
                ++acted, o.act(by);
            break;
        }
        case 5: {
            // again and again from the same place
            if (o.paused)
                break;
            auto to = static_cast<int>(c.below(o.steps.size() + 1)) - 1;
            auto n  = c.chance(1, 3) ? 1 + c.below(c.chance(1, 4) ? 300 : 60)
                                     : 1 + c.below(6);
            c.log("from ", show_p(o.where(to)), " ", n, " times");
            for (std::size_t k = 0; k < n; ++k) {
                go(to);
                act(static_cast<int>(k));
                settle();
            }
            widest = std::max<std::size_t>(widest, n);
            break;
        }
        default: {
            auto n    = many();
            auto by   = static_cast<int>(c.below(50));
            auto each = c.below(3);
            c.log("act ", by, " + ", each, ", ", n, " times");
            for (; n > 0; --n, by += each)
                act(by);
        }
        }
        settle();
        for (auto& p : o.place)
            longest = std::max(longest, p.back().second);
        if (c.chance(1, 3))
            all(store.get());
    }
    all(store.get());
    all(h->reader->get());
    c.nontrivial(longest > 100 || widest > 40);
}
