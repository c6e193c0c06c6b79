#include "c15.hpp"

#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/store.hpp>

#include <algorithm>

using pbt::Case;
using namespace cx;

namespace {

// a queue that tells when it is asked for something else
struct recording_loop
{
    world* w;
    lager::queue_event_loop* queue;
    void post(std::function<void()> f) { lager::with_queue_event_loop{*queue}.post(std::move(f)); }
    void async(std::function<void()>) { ++w->async; }
    void finish() { ++w->finish; }
    void pause() { ++w->pause; }
    void resume() { ++w->resume; }
};

} // namespace

PBT_TARGET(context_walks, 3, "at least 2 dispatches through contexts obtained by 2 or more conversions")
{
    world w;
    w.text     = c.text();
    auto queue = lager::queue_event_loop{};
    auto store = lager::make_store<V>(
        0,
        recording_loop{&w, &queue},
        lager::with_reducer([&](int n, V v) {
            w.got.push_back(show_a(v));
            return n + 1;
        }),
        lager::with_deps(std::ref(w.number), w.text),
        lager::with_futures);

    std::vector<base_ptr> ctxs;
    std::vector<int> depth;
    {
        auto root         = std::make_unique<holder<0>>(lager::context<V, D0>{store}, true);
        std::get<0>(root->model) = [](V v) { return v; };
        ctxs.push_back(std::move(root));
        depth.push_back(0);
    }
    auto deep = 0, queued = 0, total = 0;
    auto settle = [&] {
        c.log("step");
        queue.step();
        queue.step();
        queued = 0;
        P_EQ(w.got, w.expected, "what reached the store");
        for (std::size_t i = 0; i < w.done.size(); ++i)
            P_EQ(w.done[i], 1, "completions of future ", i);
        P_EQ(store.get(), total, "actions reduced");
    };
    while (c.more(15)) {
        auto a = c.chance(1, 3) ? ctxs.size() - 1 : c.below(ctxs.size());
        switch (c.below(6)) {
        case 0:
        case 1:
        case 2: {
            if (ctxs.size() > 16)
                break;
            auto to      = static_cast<int>(c.below(n_kinds));
            auto convert = c.chance(1, 2);
            auto k       = static_cast<int>(c.below(9)) - 4;
            auto how     = static_cast<int>(c.below(3));
            auto r       = ctxs[a]->convert(to, convert, k, how);
            if (!r)
                break;
            c.log("context", ctxs.size(), "of kind", to, "from", a, convert ? "with a converter" : "", k);
            ctxs.push_back(std::move(r));
            depth.push_back(depth[a] + 1);
            ctxs.back()->look(c, w);
            break;
        }
        case 3:
        case 4: {
            c.log("dispatch through", a);
            if (ctxs[a]->dispatch(c, w)) {
                ++queued;
                ++total;
                if (depth[a] >= 2)
                    ++deep;
            }
            break;
        }
        case 5:
            c.log("loop of", a);
            ctxs[a]->loop(c, w);
            break;
        }
        if (c.chance(1, 4))
            settle();
    }
    for (auto& x : ctxs)
        x->look(c, w);
    settle();
    if (deep >= 2)
        c.nontrivial();
}

// Arithmetic actions convert to one another both ways: the very type goes
// first
PBT_TARGET(arithmetic_actions, 1, "at least 2 dispatches after 2 conversions")
{
    using N = std::variant<int, double>;
    std::vector<str> got, expected;
    auto store = lager::make_store<N>(
        0, lager::with_manual_event_loop{}, lager::with_reducer([&](int n, N v) {
            got.push_back(std::visit([](auto x) { return show_a(x); }, v));
            return n + 1;
        }));
    auto root = lager::context<N>{store};
    using ID  = lager::context<lager::actions<int, double>>;
    using DI  = lager::context<lager::actions<double, int>>;
    auto cur  = ID{root};
    auto n = 0, k = 0;
    auto send = [&](auto& ctx, auto x) {
        expected.push_back(show_a(x));
        ctx.dispatch(x);
        P_EQ(got, expected, "delivered");
        ++k;
    };
    while (c.more(5)) {
        auto x = static_cast<int>(c.below(100));
        auto y = static_cast<double>(c.below(1000)) / 8;
        switch (c.below(6)) {
        case 0: cur = ID{DI{cur}}; ++n; break;
        case 1: {
            auto d = DI{cur};
            send(d, y);
            send(d, x);
            ++n;
            break;
        }
        case 2: {
            auto d = lager::context<double>{DI{cur}};
            send(d, y);
            break;
        }
        case 3: {
            auto d = lager::context<int>{DI{cur}};
            send(d, x);
            break;
        }
        case 4: {
            auto d = lager::context<double>{cur};
            send(d, y);
            break;
        }
        case 5:
            send(cur, x);
            send(cur, y);
            break;
        }
        c.log("conversions", n, "dispatches", k);
    }
    if (n >= 2 && k >= 2)
        c.nontrivial();
}

// Reducers nested in one another, each with effects for fewer actions and
// dependencies
namespace {

struct node;
using node_ptr = std::shared_ptr<node>;
struct node
{
    int id;
    int kind; // 0: A, 1: B, 2: C
    std::vector<int> form;
    std::vector<std::vector<node_ptr>> effects; // each dispatches these
    bool future;                                // the effect returns the future
};
struct RA
{
    node_ptr n;
};
struct RB
{
    node_ptr n;
};
struct RC
{
    node_ptr n;
};
using RV = std::variant<RA, RB, RC>;

struct run_state
{
    std::vector<int> reduced;              // times each node was reduced
    std::vector<std::vector<int>> effects; // times each effect ran
    std::vector<int> order;
    int number;
    str text;
    Case* c;
    bool bad = false;
    str what;
    void expect(bool ok, const char* w)
    {
        if (!ok && !bad) {
            bad  = true;
            what = w;
        }
    }
};

// kinds that a node may dispatch, given its own
const std::vector<std::vector<int>> may = {{0}, {0, 1}, {2}};

node_ptr gen_node(Case& c, int kind, int depth, int& ids)
{
    auto n    = std::make_shared<node>();
    n->id     = ids++;
    n->kind   = kind;
    n->form   = {static_cast<int>(c.below(4)), static_cast<int>(c.below(3))};
    n->future = c.flip();
    auto k    = depth > 0 ? c.below(3) : 0;
    for (std::size_t i = 0; i < k; ++i) {
        n->effects.emplace_back();
        while (n->effects.back().size() < 3 && ids < 30 && c.more(1))
            n->effects.back().push_back(gen_node(c, c.pick(may[kind]), depth - 1, ids));
    }
    return n;
}

template <typename Ctx>
void send(const Ctx& ctx, node_ptr n, lager::future& f)
{
    auto one = [&](auto x) { f = std::move(f).also(ctx.dispatch(x)); };
    if constexpr (std::is_same_v<typename Ctx::actions_t, lager::actions<RC>>)
        one(RC{n});
    else if constexpr (std::is_same_v<typename Ctx::actions_t, lager::actions<RA>>)
        one(RA{n});
    else if (n->kind == 0)
        one(RA{n});
    else
        one(RB{n});
}

using E0 = lager::deps<int&, str>;
using E1 = lager::deps<int&>;
using E2 = lager::deps<lager::dep::opt<str>>;

template <typename Actions, typename Deps>
lager::effect<Actions, Deps> effect_of(run_state& s, node_ptr n, std::size_t i)
{
    auto body = [&s, n, i](auto& ctx) {
        ++s.effects[n->id][i];
        if constexpr (std::is_same_v<Deps, E1>)
            s.expect(&ctx.template get<int>() == &s.number, "reference in an effect");
        if constexpr (std::is_same_v<Deps, E2>)
            s.expect(ctx.template has<str>() && ctx.template get<str>() == s.text,
                     "value in an effect");
        auto f = lager::future{};
        for (auto& m : n->effects[i])
            send(ctx, m, f);
        return f;
    };
    if (n->future)
        return [body](const lager::context<Actions, Deps>& ctx) { return body(ctx); };
    else
        return [body](const lager::context<Actions, Deps>& ctx) { body(ctx); };
}

template <typename Actions, typename Deps>
lager::result<int, Actions, Deps> reduce_as(run_state& s, int m, node_ptr n)
{
    ++s.reduced[n->id];
    s.order.push_back(n->id);
    if (n->effects.empty() && n->form[1] == 0)
        return {m + 1, lager::effect<Actions, Deps>{}};
    if (n->effects.empty())
        return m + 1;
    if (n->effects.size() == 1)
        return {m + 1, effect_of<Actions, Deps>(s, n, 0)};
    return {m + 1,
            lager::sequence(effect_of<Actions, Deps>(s, n, 0), effect_of<Actions, Deps>(s, n, 1))};
}

using root_result = lager::result<long, RV, E0>;

template <typename Actions>
lager::effect<Actions, E1> nothing(const node& n)
{
    if (n.form[1] == 0)
        return {};
    else if (n.form[1] == 1)
        return lager::noop;
    else
        return [](auto&&) {};
}

root_result reduce(run_state& s, long m, RA a)
{
    auto r = reduce_as<RA, E1>(s, static_cast<int>(m), a.n);
    switch (a.n->form[0]) {
    case 0: return r;
    case 1: return lager::result<int, lager::actions<RB, RA>, E0>{r};
    case 2: {
        // the model goes one way and the effect another
        auto [model, eff] = r;
        return {model, eff};
    }
    default: {
        auto e = lager::effect<lager::actions<RA, RC>, E1>{r.second};
        return {r.first, lager::effect<lager::actions<RC, RA, RB>, E0>{e}};
    }
    }
}
root_result reduce(run_state& s, long m, RB b)
{
    auto r = reduce_as<lager::actions<RA, RB>, E2>(s, static_cast<int>(m), b.n);
    switch (b.n->form[0]) {
    case 0: return r;
    case 1: return lager::result<long, RV, E2>{r};
    case 2: {
        auto [model, eff] = r;
        return {model, eff};
    }
    default: return {r.first, lager::sequence(nothing<RC>(*b.n), r.second)};
    }
}
root_result reduce(run_state& s, long m, RC x)
{
    auto r = reduce_as<RC, lager::deps<>>(s, static_cast<int>(m), x.n);
    switch (x.n->form[0]) {
    case 0: return r;
    case 1: return lager::result<int, lager::actions<RA, RC>>{r};
    case 2: {
        auto [model, eff] = r;
        return {model, eff};
    }
    default: return {r.first, lager::sequence(r.second, nothing<RA>(*x.n))};
    }
}

} // namespace

PBT_TARGET(nested_reducers, 2, "at least 3 actions and 2 effects")
{
    run_state s;
    s.c      = &c;
    s.number = c.integer();
    s.text   = c.text();
    auto ids = 0;
    std::vector<node_ptr> roots;
    do
        roots.push_back(gen_node(c, static_cast<int>(c.below(3)), 3, ids));
    while (roots.size() < 4 && c.more(1));
    s.reduced.resize(ids);
    s.effects.resize(ids);
    auto effects = 0;
    std::function<void(node_ptr)> visit = [&](node_ptr n) {
        s.effects[n->id].resize(n->effects.size());
        effects += static_cast<int>(n->effects.size());
        for (auto& e : n->effects)
            for (auto& m : e)
                visit(m);
    };
    for (auto& r : roots)
        visit(r);
    c.log(ids, "actions", effects, "effects");
    auto queue = lager::queue_event_loop{};
    auto store = lager::make_store<RV>(
        0l,
        lager::with_queue_event_loop{queue},
        lager::with_reducer([&](long m, RV a) -> root_result {
            return std::visit([&](auto x) { return reduce(s, m, x); }, a);
        }),
        lager::with_deps(s.text, std::ref(s.number)),
        lager::with_futures);
    auto done = std::vector<int>(roots.size());
    for (std::size_t i = 0; i < roots.size(); ++i) {
        auto n   = roots[i];
        auto f   = n->kind == 0   ? store.dispatch(RA{n})
                   : n->kind == 1 ? store.dispatch(RB{n})
                                  : store.dispatch(RC{n});
        std::move(f).then([&done, i] { ++done[i]; });
    }
    queue.step();
    P_CHECK(!s.bad, s.what);
    for (auto i = 0; i < ids; ++i) {
        P_EQ(s.reduced[i], 1, "times action ", i, " was reduced");
        for (auto k : s.effects[i])
            P_EQ(k, 1, "times an effect of action ", i, " ran");
    }
    P_EQ(store.get(), static_cast<long>(ids), "model");
    for (auto k : done)
        P_EQ(k, 1, "completions");
    if (ids >= 3 && effects >= 2)
        c.nontrivial();
}
