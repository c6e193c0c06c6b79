// C02: effects run exactly once, in order, after their model is published.
#include "store_exec.hpp"
#include "store_done.hpp"

using namespace sx;

PBT_TARGET(store_effects,
           1,
           "at least 2 effects ran and one of them was a sequence, returned a "
           "future or was nested")
{
    outcome o;
    run_any(c, o, true, false);
    auto d = done_times{o};
    std::vector<int> effect_order, reduce_order;
    std::size_t seqs = 0, rets = 0, nested = 0;
    for (std::size_t i = 0; i < o.e.events.size(); ++i) {
        auto& ev = o.e.events[i];
        auto first = [&] { // the first part that is not inert
            auto& bs = o.prog.plans[ev.id].bodies;
            for (int k = 0; k < (int) bs.size(); ++k)
                if (!bs[k].inert)
                    return k;
            return -1;
        };
        if (ev.kind == event::reduce && first() >= 0)
            reduce_order.push_back(ev.id);
        if (ev.kind == event::effect) {
            if (ev.k == first())
                effect_order.push_back(ev.id);
            P_CHECK(ev.ok, "effect " << ev.id << " reaches its dependency");
            P_CHECK(ev.in_loop, "effect " << ev.id << " ran outside the loop");
            if (!o.transactional)
                P_CHECK(ev.published,
                        "effect " << ev.id << " ran before its model was visible");
            if (!o.transactional)
                P_CHECK(ev.notified,
                        "effect " << ev.id << " ran before watchers were told");
            P_CHECK(d.reduce.count(ev.id) && d.reduce[ev.id] < i,
                    "effect " << ev.id << " ran before its reducer");
            rets += o.prog.plans[ev.id].bodies[ev.k].returns >= 0;
            nested += !o.prog.plans[ev.id].bodies[ev.k].dispatches.empty();
        }
    }
    P_EQ(effect_order, reduce_order, "order of effects vs. reducers");
    for (auto id : reduce_order) {
        auto& p = o.prog.plans[id];
        seqs += p.bodies.size() > 1;
        for (int k = 0; k < (int) p.bodies.size(); ++k) {
            if (p.bodies[k].inert)
                continue;
            P_EQ(d.bodies[std::make_pair(id, k)].size(),
                 std::size_t{1},
                 "times part " << k << " of effect " << id << " ran");
            if (k > 0) {
                auto prev = d.body_done(id, k - 1);
                P_CHECK(prev >= 0, "previous part never completed");
                P_CHECK((long) d.bodies[std::make_pair(id, k)][0] > prev,
                        "part " << k << " of effect " << id
                                << " started before the previous completed");
            }
        }
    }
    for (auto& p : o.e.problems)
        c.fail(p);
    P_EQ(o.e.posted_ran, o.e.posted, "functions posted through the context");
    c.label("functions posted by effects", !o.e.posted.empty());
    c.label("sequences", seqs > 0);
    c.label("effects returning futures", rets > 0);
    c.label("transactional", o.transactional);
    c.label("effects dispatching", nested > 0);
    c.nontrivial(effect_order.size() >= 2 &&
                 (seqs > 0 || rets > 0 || nested > 0));
}
