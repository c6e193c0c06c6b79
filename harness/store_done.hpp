// When the work behind a dispatch completed, derived from a record.
#pragma once
#include "store_exec.hpp"

#include <map>

namespace sx {

struct done_times
{
    outcome& o;
    std::map<int, std::size_t> reduce;
    std::map<int, std::vector<std::size_t>> thens;
    std::map<std::pair<int, int>, std::vector<std::size_t>> bodies;

    explicit done_times(outcome& o_)
        : o{o_}
    {
        for (std::size_t i = 0; i < o.e.events.size(); ++i) {
            auto& ev = o.e.events[i];
            if (ev.kind == event::reduce && !reduce.count(ev.id))
                reduce[ev.id] = i;
            if (ev.kind == event::then_run)
                thens[ev.id].push_back(i);
            if (ev.kind == event::effect)
                bodies[{ev.id, ev.k}].push_back(i);
        }
    }
    // index of the last event of the action's own work; -1: not complete
    long action_done(int id)
    {
        auto& p = o.prog.plans[id];
        if (!reduce.count(id))
            return -1;
        long t = static_cast<long>(reduce[id]);
        if (o.effects)
            for (int k = 0; k < (int) p.bodies.size(); ++k) {
                auto b = body_done(id, k);
                if (b < 0)
                    return -1;
                t = std::max(t, b);
            }
        return t;
    }
    // of the future the helper handed out for this dispatch
    long future_done(int id)
    {
        auto& p = o.prog.plans[id];
        if (!o.futures || p.late)
            return 0; // an empty future
        auto t = action_done(id);
        if (t < 0 || !p.then)
            return t;
        if (!thens.count(id))
            return -1;
        t = std::max(t, static_cast<long>(thens[id][0]));
        if (p.then_returns >= 0) {
            auto r = future_done(p.then_dispatches[p.then_returns]);
            if (r < 0)
                return -1;
            t = std::max(t, r);
        }
        return t;
    }
    long body_done(int id, int k)
    {
        auto key = std::make_pair(id, k);
        if (o.prog.plans[id].bodies[k].inert) {
            if (k > 0)
                return body_done(id, k - 1);
            return reduce.count(id) ? static_cast<long>(reduce[id]) : -1;
        }
        if (!bodies.count(key))
            return -1;
        auto& b = o.prog.plans[id].bodies[k];
        long t  = static_cast<long>(bodies[key][0]);
        for (int i = 0; i < (int) b.dispatches.size(); ++i)
            if (b.join || b.returns == i) {
                auto f = future_done(b.dispatches[i]);
                if (f < 0)
                    return -1;
                t = std::max(t, f);
            }
        return t;
    }
};

} // namespace sx
