// C03: futures complete exactly once, in the loop, after all their work.
#include "store_done.hpp"

#include <deque>
#include <set>

using namespace sx;

PBT_TARGET(store_futures,
           2,
           "at least 2 continuations ran, with futures enabled")
{
    outcome o;
    run_any(c, o, true, !c.chance(1, 10));
    auto d = done_times{o};
    std::size_t n = 0, late = 0, waits = 0;
    for (auto& p : o.e.problems)
        c.fail(p);
    std::set<int> dispatched;
    for (auto& ev : o.e.events)
        if (ev.kind == event::dispatch)
            dispatched.insert(ev.id);
    for (auto id : dispatched) {
        auto& p = o.prog.plans[id];
        if (!p.then)
            continue;
        ++n;
        late += p.late;
        P_EQ(d.thens[id].size(),
             std::size_t{1},
             "times the continuation of action " << id << " ran");
        if (!o.futures)
            continue;
        auto i    = d.thens[id][0];
        auto& ev  = o.e.events[i];
        auto done = d.action_done(id);
        P_CHECK(ev.in_loop, "continuation " << id << " ran outside the loop");
        P_CHECK(done >= 0 && done < (long) i,
                "continuation " << id << " ran before the work completed");
        if (!o.transactional)
            P_CHECK(ev.published,
                    "continuation " << id << " ran before publication");
        if (o.effects)
            for (auto& b : p.bodies)
                waits += b.returns >= 0;
    }
    c.label("late continuations", late > 0);
    c.label("continuations waiting for effects' futures", waits > 0);
    c.label("futures disabled", !o.futures);
    c.nontrivial(n >= 2 && o.futures);
}

// Futures on their own: a generated forest of promises and of futures combined
// with then and also, fulfilled and attached in any order.
namespace {

struct graph
{
    struct node
    {
        // source: a promise; chain: then returning nothing; bind: then
        // returning another node's future; join: also
        enum kind_t
        {
            source,
            empty,
            chain,
            bind,
            join
        } kind;
        int a = -1, b = -1; // inputs
        int order = -1;     // when its continuation ran
        int runs  = 0;
        bool fulfilled = false;
        bool used      = false; // its future has been moved into another node
        bool built     = false;
        bool complete  = false; // by the model
    };
    std::vector<node> ns;
};

} // namespace

PBT_TARGET(future_graph,
           2,
           "at least 4 nodes of which one is a bind or a join of incomplete "
           "futures")
{
    using node_t = graph::node;
    auto queue   = std::deque<std::function<void()>>{};
    bool in_loop = false;
    auto post    = [&](std::function<void()> fn) { queue.push_back(fn); };
    auto g       = graph{};
    auto futures = std::vector<lager::future>{};
    auto promises =
        std::vector<std::pair<int, lager::promise>>{}; // unfulfilled
    int clock = 0, binds = 0;

    // an order of completion: time at which the model says a node completed
    auto completed_at = std::vector<int>{};

    auto run_loop = [&](unsigned n) {
        in_loop = true;
        while (!queue.empty() && n--) {
            auto f = std::move(queue.front());
            queue.pop_front();
            f();
        }
        in_loop = false;
    };
    auto fulfil = [&](std::size_t i) {
        auto [id, p] = std::move(promises[i]);
        promises.erase(promises.begin() + i);
        c.log("fulfil ", id);
        g.ns[id].fulfilled = true;
        p();
    };
    auto unused = [&] {
        auto r = std::vector<int>{};
        for (int i = 0; i < (int) g.ns.size(); ++i)
            if (!g.ns[i].used)
                r.push_back(i);
        return r;
    };
    // model: is everything node i depends on complete?
    std::function<bool(int)> complete = [&](int i) -> bool {
        auto& n = g.ns[i];
        switch (n.kind) {
        case node_t::source:
            return n.fulfilled;
        case node_t::empty:
            return true;
        case node_t::chain:
            return n.runs == 1 && complete(n.a);
        case node_t::bind:
            return n.runs == 1 && complete(n.a) && complete(n.b);
        default:
            return complete(n.a) && complete(n.b);
        }
    };
    // whether a future has no promise behind it, so that continuations are
    // called immediately
    std::function<bool(int)> is_empty = [&](int i) -> bool {
        auto& n = g.ns[i];
        switch (n.kind) {
        case node_t::source:
            return false;
        case node_t::empty:
            return true;
        case node_t::chain:
            return is_empty(n.a);
        default:
            return is_empty(n.a) && is_empty(n.b);
        }
    };
    auto on_run = [&](int i) {
        auto& n = g.ns[i];
        ++n.runs;
        n.order = clock++;
        c.log("  continuation ", i);
        if (n.runs > 1)
            c.note_failure("continuation " + std::to_string(i) +
                           " ran more than once");
        if (!complete(n.a))
            c.note_failure("continuation " + std::to_string(i) +
                           " ran before its input completed");
        if (!is_empty(n.a) && !in_loop)
            c.note_failure("continuation " + std::to_string(i) +
                           " ran outside of the loop");
    };

    int ops = 0;
    while (ops++ < 40 && c.more(14)) {
        auto us = unused();
        switch (c.below(8)) {
        case 0:
        case 1: {
            auto [p, f] = lager::promise::with_post(post);
            auto id     = (int) g.ns.size();
            g.ns.push_back({node_t::source});
            futures.push_back(std::move(f));
            promises.emplace_back(id, std::move(p));
            c.log("promise ", id);
            break;
        }
        case 2:
            if (c.chance(1, 3)) {
                c.log("empty ", g.ns.size());
                g.ns.push_back({node_t::empty});
                if (c.flip())
                    futures.push_back({});
                else
                    futures.push_back(lager::promise::invalid().second);
            }
            break;
        case 3: {
            if (us.empty())
                break;
            auto a  = c.pick(us);
            auto id = (int) g.ns.size();
            c.log("then ", id, " on ", a);
            g.ns.push_back({node_t::chain, a});
            g.ns[a].used = true;
            auto was     = is_empty(a);
            auto f = std::move(futures[a]).then([&, id] { on_run(id); });
            if (was)
                P_EQ(g.ns[id].runs, 1, "continuation of an empty future");
            futures.push_back(std::move(f));
            break;
        }
        case 4: {
            if (us.size() < 2)
                break;
            auto a  = c.pick(us);
            auto b  = c.pick(us);
            if (a == b)
                break;
            auto id = (int) g.ns.size();
            c.log("then ", id, " on ", a, " returning ", b);
            g.ns.push_back({node_t::bind, a, b});
            g.ns[a].used = g.ns[b].used = true;
            binds += !complete(a) || !complete(b);
            auto f = std::move(futures[a]).then(
                [&, id, fb = std::move(futures[b])]() mutable {
                    on_run(id);
                    return std::move(fb);
                });
            futures.push_back(std::move(f));
            break;
        }
        case 5: {
            if (us.size() < 2)
                break;
            auto a  = c.pick(us);
            auto b  = c.pick(us);
            if (a == b)
                break;
            auto id = (int) g.ns.size();
            c.log("also ", id, " of ", a, " and ", b);
            g.ns.push_back({node_t::join, a, b});
            g.ns[a].used = g.ns[b].used = true;
            binds += !complete(a) || !complete(b);
            auto f = std::move(futures[a]).also(std::move(futures[b]));
            futures.push_back(std::move(f));
            break;
        }
        case 6:
            if (!promises.empty())
                fulfil(c.below(promises.size()));
            break;
        default:
            run_loop(1 + c.below(4));
        }
        P_CHECK(!c.failed());
    }
    // every future that is complete when the loop is idle runs continuations
    // attached to it; one that is not, does not until it is
    run_loop(1000);
    for (int i = 0; i < (int) g.ns.size(); ++i)
        if (g.ns[i].kind == node_t::chain || g.ns[i].kind == node_t::bind)
            P_EQ(g.ns[i].runs,
                 complete(g.ns[i].a) ? 1 : 0,
                 "runs of continuation " << i << " with the loop idle");
    while (!promises.empty()) {
        fulfil(c.below(promises.size()));
        if (c.flip())
            run_loop(1000);
        P_CHECK(!c.failed());
    }
    run_loop(1000);
    // probe what is left: continuations attached after completion
    auto tail = std::vector<int>(g.ns.size(), 0);
    for (auto i : unused())
        (void) std::move(futures[i]).then([&tail, i] { ++tail[i]; });
    run_loop(1000);
    P_CHECK(!c.failed());
    for (auto i : unused())
        P_EQ(tail[i], 1, "continuation attached to completed future " << i);
    for (int i = 0; i < (int) g.ns.size(); ++i)
        if (g.ns[i].kind == node_t::chain || g.ns[i].kind == node_t::bind)
            P_EQ(g.ns[i].runs, 1, "runs of continuation " << i << " at the end");
    c.label("bind or join of incomplete futures", binds > 0);
    c.nontrivial(g.ns.size() >= 4 && binds > 0);
}
