#include <cassert>
#include "c27.hpp"

using namespace c27;

namespace {

const std::vector<config>& configs()
{
    static const auto all = [] {
        auto r = std::vector<config>{};
        for (auto& part : {configs_a(), configs_b(), configs_c(), configs_d()})
            r.insert(r.end(), part.begin(), part.end());
        return r;
    }();
    return all;
}

// the reference: a plain store where thunks are actions
template <typename Tag, typename... Enhancers>
std::unique_ptr<app> reference(env& e, Enhancers... enhancers)
{
    return hold<lager::deps<>, false>(
        e,
        lager::make_store<action, Tag>(
            model{},
            make_loop(e),
            lager::with_reducer(reducer<lager::deps<>>{}),
            enhancers...));
}

std::unique_ptr<app> make_reference(env& e, const config& cfg)
{
    if (cfg.transactional)
        return cfg.futures ? reference<lager::transactional_tag>(
                                 e, lager::with_futures)
                           : reference<lager::transactional_tag>(e);
    return cfg.futures
               ? reference<lager::automatic_tag>(e, lager::with_futures)
               : reference<lager::automatic_tag>(e);
}

void run_ops(env& e)
{
    e.the_app->watch(
        [&e](const model& m) { e.shown.push_back(m.log); });
    for (auto& o : e.s.ops) {
        switch (o.kind) {
        case op::dispatch:
            e.dispatch(o.id);
            break;
        case op::step:
            e.queue.step();
            break;
        case op::commit:
            e.the_app->commit();
            break;
        }
        if (o.kind != op::dispatch)
            e.at_step.push_back(e.the_app->get().log);
    }
}

void run_enhanced(Case& c, const config& cfg)
{
    auto s = script{};
    s.gen_all(c, cfg.transactional, cfg.thunks, cfg.effects);
    auto v = dep_values{c.small(100), c.small(100), c.small(100), c.small(100)};
    c.log("store with ", cfg.name, s.manual ? " on a manual loop" : "");
    for (auto& o : s.ops)
        c.log(o.kind == op::step     ? "step"
              : o.kind == op::commit ? "commit"
                                     : s.describe(o.id));
    env ref{s, cfg.futures, !cfg.transactional};
    ref.the_app = make_reference(ref, cfg);
    run_ops(ref);
    env e{s, cfg.futures, !cfg.transactional};
    e.want_a  = cfg.a == 1 ? v.a1 : -1;
    e.want_b  = cfg.b == 1 ? v.b1 : cfg.b == 2 ? v.b2 : -1;
    e.want_c  = cfg.c == 2 ? v.c2 : -1;
    e.the_app = cfg.make(e, v);
    run_ops(e);

    for (auto& p : e.problems)
        c.fail(p);
    for (auto& p : ref.problems)
        c.fail("reference: " + p);

    // everything, once, in dispatch order
    auto actions = std::vector<int>{};
    auto fold    = std::vector<int>{};
    for (auto id : e.dispatched)
        if (!s.items[id].thunk) {
            actions.push_back(id);
            if (!s.items[id].unchanged)
                fold.push_back(id);
        }
    P_EQ(e.dispatched.size(), s.items.size());
    P_EQ(e.reduced, actions);
    P_EQ(e.the_app->get().log, fold);
    auto bodies = std::vector<int>{};
    for (auto id : e.dispatched)
        if (s.items[id].has_body())
            bodies.push_back(id);
    P_EQ(e.bodies, bodies);
    for (auto id : e.dispatched) {
        P_EQ(e.thens[id], s.items[id].then ? 1 : 0);
        P_EQ(static_cast<int>(e.tail_ran[id]),
             s.items[id].effect == item::chain ? 1 : 0);
    }

    // and as in the plain store
    P_EQ(e.dispatched, ref.dispatched);
    P_EQ(e.shown, ref.shown);
    P_EQ(e.at_step, ref.at_step);

    c.nontrivial(s.items.size() >= 3 && (s.effects || !cfg.effects) &&
                 (s.thunks || !cfg.thunks));
    c.label("thunks", s.thunks > 0);
    c.label("thunks dispatched from thunks", s.nested > 0);
    c.label("with futures", cfg.futures);
    c.label("transactional", cfg.transactional);
}

} // namespace

PBT_TARGET(enhanced_stores, 4,
           "three or more dispatches, with effects if the reducer has them "
           "and with thunks if the store takes them")
{
    auto& all = configs();
    run_enhanced(c, all[c.below(all.size())]);
}

PBT_TARGET(thunks, 4,
           "three or more dispatches with thunks, and with effects if the "
           "reducer has them")
{
    auto some = std::vector<const config*>{};
    for (auto& cfg : configs())
        if (cfg.thunks)
            some.push_back(&cfg);
    run_enhanced(c, *some[c.below(some.size())]);
}
