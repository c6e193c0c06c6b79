// Operations of the worlds declared in graph.hpp.
#include "graph_make.hpp"

namespace graph {

// ---- roots ------------------------------------------------------------------

template <typename T, typename Tag>
void make_state_root(world& w, const char* name)
{
    mnode n;
    n.what      = name;
    n.root      = static_cast<int>(w.roots.size());
    n.mask      = 1u << n.root;
    n.writable  = true;
    n.automatic = std::is_same_v<Tag, lager::automatic_tag>;
    n.noeq      = std::is_same_v<T, U>;
    for (std::size_t i = 0; i < width<T>(); ++i)
        n.cur.push_back(w.c.small(6));
    n.pub  = n.cur;
    auto x = lager::state<T, Tag>{as<T>(n.cur)};
    auto h = lager::cursor<T>{x};
    w.roots.push_back(std::make_unique<root_t>(std::move(x)));
    auto id = static_cast<int>(w.ns.size());
    w.root_nodes.push_back(id);
    w.c.log("h", w.handle_ids, " = n", id, " = ", name, pbt::show(n.pub));
    w.ns.push_back(std::move(n));
    w.heights.push_back(0);
    w.add_handle(std::make_unique<handle<T, true>>(std::move(h), id));
}

void world::add_root()
{
    if (roots.size() >= opt.max_roots)
        return;
    switch (c.below(opt.only_cursors ? 8 : 14)) {
    case 0:
    case 1:
        return make_state_root<P, lager::transactional_tag>(*this, "state<P>");
    case 2:
        return make_state_root<int, lager::transactional_tag>(*this,
                                                              "state<int>");
    case 3:
    case 4:
        return make_state_root<Q, lager::transactional_tag>(*this, "state<Q>");
    case 5:
        return make_state_root<P, lager::automatic_tag>(*this, "autostate<P>");
    case 6:
        return make_state_root<int, lager::automatic_tag>(*this,
                                                          "autostate<int>");
    case 7:
    case 8:
        return make_state_root<U, lager::transactional_tag>(*this, "state<U>");
    case 9:
        return make_state_root<U, lager::automatic_tag>(*this, "autostate<U>");
    case 10:
    case 11: {
        mnode n;
        n.what   = "sensor";
        n.root   = static_cast<int>(roots.size());
        n.mask   = 1u << n.root;
        n.sensed = std::make_shared<int>(c.small(6));
        n.cur = n.pub = {*n.sensed};
        auto x = lager::sensor<int>{[p = n.sensed] { return *p; }};
        auto h = lager::reader<int>{x};
        roots.push_back(std::make_unique<root_t>(std::move(x)));
        auto id = static_cast<int>(ns.size());
        root_nodes.push_back(id);
        c.log("h", handle_ids, " = n", id, " = sensor", pbt::show(n.pub));
        ns.push_back(std::move(n));
        heights.push_back(0);
        add_handle(std::make_unique<handle<int, false>>(std::move(h), id));
        return;
    }
    case 12: {
        mnode n;
        n.what     = "constant";
        n.root     = static_cast<int>(roots.size());
        n.mask     = 1u << n.root;
        n.constant = true;
        n.cur = n.pub = {c.small(6), c.small(6)};
        auto x = lager::constant<P>{as<P>(n.pub)};
        auto h = lager::reader<P>{x};
        roots.push_back(std::make_unique<root_t>(std::move(x)));
        auto id = static_cast<int>(ns.size());
        root_nodes.push_back(id);
        c.log("h", handle_ids, " = n", id, " = constant", pbt::show(n.pub));
        ns.push_back(std::move(n));
        heights.push_back(0);
        add_handle(std::make_unique<handle<P, false>>(std::move(h), id));
        return;
    }
    default: {
        mnode n;
        n.root      = static_cast<int>(roots.size());
        n.mask      = 1u << n.root;
        n.automatic = c.flip();
        n.what      = n.automatic ? "autostore" : "store";
        n.cur = n.pub = {c.small(6), c.small(6)};
        auto init     = as<P>(n.pub);
        auto x        = n.automatic
                            ? lager::store<paction, P>{lager::make_store<
                           paction,
                           lager::automatic_tag>(
                           init,
                           lager::with_manual_event_loop{},
                           lager::with_reducer(update_p{}))}
                            : lager::store<paction, P>{
                                  lager::make_store<paction,
                                                    lager::transactional_tag>(
                                      init,
                                      lager::with_manual_event_loop{},
                                      lager::with_reducer(update_p{}))};
        auto h        = lager::reader<P>{x};
        roots.push_back(std::make_unique<root_t>(std::move(x)));
        auto id = static_cast<int>(ns.size());
        root_nodes.push_back(id);
        c.log("h", handle_ids, " = n", id, " = ", n.what, pbt::show(n.pub));
        ns.push_back(std::move(n));
        heights.push_back(0);
        add_handle(std::make_unique<handle<P, false>>(std::move(h), id));
    }
    }
}

// ---- operations -------------------------------------------------------------

void world::watch(any_handle* h, bool bind)
{
    auto w  = std::make_unique<any_handle::watcher>();
    auto p  = w.get();
    p->id   = watcher_ids++;
    p->last = h->get();
    if (opt.watcher_writes && c.chance(1, 2))
        p->acts = 1;
    if (opt.watcher_auto && c.chance(1, 3))
        p->acts = 2;
    if (opt.watcher_reshapes && c.chance(1, 2))
        p->acts = 3;
    c.log(bind ? "bind" : "watch",
          " w",
          p->id,
          " on h",
          h->id,
          " (n",
          h->node,
          ")",
          p->acts == 3 ? " reshaping when called"
          : p->acts  ? " writing when called"
                     : "");
    h->watchers.push_back(std::move(w));
    begin_op();
    auto fn = [this, h, p](const val& v) { called(h, p, v); };
    if (bind) {
        // invoked once, at once, with the published value
        phases.push_back(take());
        auto acts = p->acts;
        p->acts   = 0;
        binding = true;
        h->bind(fn);
        binding = false;
        p->acts = acts;
        expect(counts, p->calls == 1, "bind invoked the callback ", p->calls, " times");
        p->calls = 0;
    } else
        h->watch(fn);
    end_op(bind ? "bind" : "watch");
}

void world::write(any_handle* h, bool update)
{
    auto i = h->node;
    if (leaks(reach(i)))
        return;
    begin_op();
    auto before = ns[i].cur;
    auto delta  = c.small(5) - 2;
    auto v      = gen_value(i);
    auto fn     = [&, delta](const val& x) {
        auto r = x;
        for (auto& e : r)
            e += delta;
        return r;
    };
    if (update)
        v = fn(ns[i].cur);
    h->lvalue = c.flip();
    c.log(update ? "update" : "set", " h", h->id, " (n", i, ") ", pbt::show(v),
          !update && h->lvalue ? " from a variable" : "");
    composed_writes += heights[i] > 1;
    merged_writes += ns[i].multi;
    stale_updates += update && ns[i].cur != ns[i].pub;
    write_model(i, v);
    if (phases.empty())
        ++pending_writes;
    if (update)
        h->update(fn);
    else
        h->set(v);
    end_op(update ? "update" : "set");
}

void world::dispatch()
{
    std::vector<int> stores;
    for (auto r : root_nodes)
        if (std::holds_alternative<lager::store<paction, P>>(
                *roots[ns[r].root]))
            stores.push_back(r);
    if (stores.empty())
        return;
    auto r = c.pick(stores);
    if (leaks(ns[r].mask))
        return;
    auto a = paction{c.small(4), c.small(6)};
    c.log("dispatch to n", r, " ", a.kind, " ", a.v);
    begin_op();
    write_model(r, enc(update_p{}(as<P>(ns[r].cur), a)));
    pending_writes += phases.empty();
    std::get<lager::store<paction, P>>(*roots[ns[r].root]).dispatch(a);
    end_op("dispatch");
}

void world::commit(unsigned mask)
{
    // one propagation publishes at most three roots; keep what the known
    // finding about partial commits affects together
    mask        = closure(mask);
    auto chosen = std::vector<int>{};
    for (auto r : root_nodes)
        if (ns[r].mask & mask)
            chosen.push_back(r);
    if (chosen.empty())
        return;
    // in any order
    for (std::size_t i = chosen.size(); i > 1; --i)
        std::swap(chosen[i - 1],
                  chosen[c.below(static_cast<std::uint32_t>(i))]);
    auto rs  = std::vector<root_t*>{};
    auto txt = std::string{};
    bool any = false;
    for (auto r : chosen) {
        rs.push_back(roots[ns[r].root].get());
        txt += " n" + std::to_string(r);
        any |= pending(r);
        if (ns[r].sensed) {
            any |= ns[r].cur != val{*ns[r].sensed};
            ns[r].cur = {*ns[r].sensed};
        }
    }
    c.log("commit", txt);
    begin_op();
    refresh_cur();
    auto changing = 0;
    for (auto r : chosen)
        changing += ns[r].cur != ns[r].pub;
    multi_commits += changing > 1;
    noop_commits += !any;
    publish(mask);
    commit_roots(rs);
    end_op("commit");
}

void world::act(any_handle* self, any_handle::watcher* w)
{
    if (phase + 1 != phases.size())
        return;
    if (w->acts == 3)
        return reshape(self, w);
    auto hs = std::vector<any_handle*>{};
    for (auto& h : handles) {
        if (!h || !h->writable())
            continue;
        unsigned autos = 0, trans = 0;
        for (auto r : root_nodes)
            if (ns[r].mask & ns[h->node].mask)
                (ns[r].automatic ? autos : trans) |= ns[r].mask;
        if (w->acts == 1 ? !autos : autos && !trans && !leaks(autos))
            hs.push_back(h.get());
    }
    if (hs.empty())
        return;
    auto kind = w->acts;
    w->acts   = 0; // only once
    (void) self;
    auto h = c.pick(hs);
    auto v = gen_value(h->node);
    ++watcher_acts;
    relaxed = true;
    c.log("  watcher w", w->id, " sets h", h->id, " (n", h->node, ") ", pbt::show(v));
    auto n = phases.size();
    write_model(h->node, v);
    if (kind == 2 && phases.size() > n)
        phase = n;
    h->set(v);
    phase = phases.size() - 1;
    check_world(kind == 1 ? isolation | in_watcher : in_watcher,
                "inside of a watcher that wrote");
}

// derives, watches and drops readers in the middle of a publication
void world::reshape(any_handle* self, any_handle::watcher* w)
{
    if (!c.flip())
        w->acts = 0;
    ++reshaped;
    for (int n = 1 + c.small(3); n > 0; --n) {
        auto k = c.below(5);
        if (k < 2) {
            auto h = pick(false);
            if (!h || h == self || handles.size() < 3)
                continue;
            c.log("  watcher w", w->id, " drops h", h->id, " (n", h->node, ")");
            for (auto& p : handles)
                if (p.get() == h)
                    p.reset();
            ++dropped_sources;
            ++reshaped_drops;
        } else if (k < 4) {
            if (ns.size() > 40)
                continue;
            c.log("  watcher w", w->id, " derives");
            derive();
            ++reshaped_derives;
        } else if (auto h = pick(false); h && h != self && watcher_ids < 40) {
            auto x      = std::make_unique<any_handle::watcher>();
            auto p      = x.get();
            p->id       = watcher_ids++;
            p->last     = h->get();
            p->replaced = true; // may or may not be told of this publication
            c.log("  watcher w", w->id, " watches h", h->id, " with w", p->id);
            h->watchers.push_back(std::move(x));
            h->watch([this, h, p](const val& v) { called(h, p, v); });
        }
    }
}

void world::finish()
{
    // everything published: nobody may have missed the last value
    for (int i = 0; i < 2; ++i) {
        for (auto& h : handles)
            if (h)
                for (auto& w : h->watchers)
                    w->acts = 0;
        commit(~0u);
    }
    for (auto& h : handles)
        if (h && !ns[h->node].noeq && !ns[h->node].unsettled &&
            !ns[h->node].uncertain)
            for (auto& w : h->watchers)
                expect(counts,
                       w->replaced || w->last == ns[h->node].pub,
                       "watcher of n",
                       h->node,
                       " last saw ",
                       pbt::show(w->last),
                       " but the value is ",
                       pbt::show(ns[h->node].pub));
    stop_if_failed();
}

void world::run()
{
    for (int n = 1 + c.small(opt.max_roots); n > 0; --n)
        add_root();
    for (int n = c.small(7); n > 0; --n)
        derive();
    int ops = 0;
    while (ops++ < 50 && c.more(18)) {
        auto total = 8 + opt.derive_weight + opt.write_weight * 2 +
                     opt.watch_weight;
        auto k = c.below(total);
        if (k < 3) {
            commit(c.chance(1, 3) ? ~0u : c.below(1u << opt.max_roots) | 1u);
        } else if (k == 3) {
            add_root();
        } else if (k == 4) {
            dispatch();
        } else if (k == 5) {
            for (auto r : root_nodes)
                if (ns[r].sensed && c.flip()) {
                    *ns[r].sensed = c.small(6);
                    c.log("sensor n", r, " would be ", *ns[r].sensed);
                }
        } else if (k == 6) {
            // drop or copy a handle
            auto h = pick(false);
            if (!h)
                continue;
            if (c.flip()) {
                auto reader = c.flip();
                c.log("h", handle_ids, " = copy of h", h->id);
                add_handle(h->copy(reader));
            } else if (handles.size() > 2) {
                c.log("drop h", h->id);
                for (auto& p : handles)
                    if (p.get() == h)
                        p.reset();
                ++dropped_sources;
            }
        } else if (k == 7) {
            if (auto h = pick(false); h && !h->watchers.empty()) {
                c.log("nudge h", h->id);
                begin_op();
                phases.push_back(take());
                auto acts = std::vector<int>{};
                for (auto& w : h->watchers) {
                    acts.push_back(w->acts);
                    w->acts = 0;
                }
                h->nudge();
                for (std::size_t i = 0; i < h->watchers.size(); ++i) {
                    auto& w = h->watchers[i];
                    w->acts = acts[i];
                    expect(counts,
                           w->calls == 1,
                           "nudge invoked a watcher ",
                           w->calls,
                           " times");
                    w->calls = 0;
                }
                end_op("nudge");
            }
        } else if (k < 8 + opt.derive_weight) {
            derive();
            if (c.chance(1, 96))
                for (int n = 1 << c.small(5); n; --n)
                    derive();
        } else if (k < 8 + opt.derive_weight + opt.watch_weight) {
            if (auto h = pick(false); h && watcher_ids < 25) {
                watch(h, c.chance(1, 5));
                // sometimes, many
                if (c.chance(1, 48))
                    for (int n = 1 << c.small(6); n; --n) {
                        watch(h, false);
                        h->watchers.back()->acts = 0;
                    }
            }
        } else if (auto h = pick(true)) {
            write(h, c.chance(1, 3));
        }
    }
    finish();
}

} // namespace graph
