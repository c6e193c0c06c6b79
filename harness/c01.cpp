// C01: the store's model is the fold of the reducer over dispatched actions.
#include "store_exec.hpp"

using namespace sx;

PBT_TARGET(store_fold,
           1,
           "at least 4 actions were reduced, one of them dispatched from an "
           "effect, a watcher or a continuation, or a commit was involved")
{
    outcome o;
    run_any(c, o, false, false);
    auto dispatched = std::vector<int>{};
    std::size_t nested = 0, last = 0;
    for (auto& ev : o.e.events) {
        if (ev.kind == event::dispatch) {
            dispatched.push_back(ev.id);
            nested += ev.in_loop;
        }
        if (ev.kind == event::notify) {
            P_CHECK(ev.prefix,
                    "a watcher saw something that is not the next fold state");
            P_CHECK(ev.size > last);
            last = ev.size;
        }
    }
    for (auto& p : o.problems)
        c.fail(p);
    P_EQ(o.e.reduced, dispatched, "order of reduction vs. dispatch");
    auto m = o.initial;
    for (auto id : o.e.reduced)
        if (!o.prog.plans[id].unchanged)
            m = apply(m, id);
    P_EQ(o.final_model.log, m.log);
    P_EQ(o.final_model.hash, m.hash);
    c.label("transactional", o.transactional);
    c.label("automatic", !o.transactional);
    c.label("nested dispatch", nested > 0);
    c.label("10+ actions", o.e.reduced.size() >= 10);
    c.nontrivial(o.e.reduced.size() >= 4 && (nested > 0 || o.transactional));
}
