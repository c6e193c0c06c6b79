#include "c14.hpp"

#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>

using pbt::Case;
using namespace dp;


namespace {

base_ptr make(Case& c, world& w, int t)
{
    base_ptr r;
    each_type<0>([&](auto j) {
        using E = type_at<decltype(j)::value>;
        if (j == t) {
            cells cs;
            auto d = build(c, w, cs, static_cast<E*>(nullptr));
            r      = std::make_unique<holder<decltype(j)::value>>(std::move(d));
            r->cs  = std::move(cs);
        }
    });
    return r;
}

void init(Case& c, world& w)
{
    for (auto& x : w.ints)
        x = gen_value<int>(c);
    for (auto& x : w.strs)
        x = gen_value<str>(c);
    for (auto& x : w.things)
        x = gen_value<thing>(c);
    for (auto& x : w.at)
        x = static_cast<int>(c.below(n_objs));
}

void mutate(Case& c, world& w)
{
    auto i = static_cast<int>(c.below(n_objs));
    switch (c.below(4)) {
    case 0: w.ints[i] = gen_value<int>(c); break;
    case 1: w.strs[i] = gen_value<str>(c); break;
    case 2: w.things[i] = gen_value<thing>(c); break;
    case 3: w.at[c.below(4)] = i; break;
    }
}

PBT_TARGET(dependency_walks, 3, "at least two sets were obtained from others by narrowing, merging or copying")
{
    world w;
    init(c, w);
    std::vector<base_ptr> sets;
    auto fresh = [&] {
        auto t = static_cast<int>(c.chance(1, 3) ? 0 : c.chance(1, 3) ? 5 : c.below(n_types));
        sets.push_back(make(c, w, t));
        c.log("with", sets.size() - 1, "= type", t, describe(sets.back()->cs));
    };
    fresh();
    auto changed = 0;
    while (c.more(10) && sets.size() < 12) {
        auto a = c.below(sets.size());
        auto k = c.below(10);
        auto add = [&](const char* what, base_ptr r) {
            if (!r)
                return;
            ++changed;
            c.label(what);
            c.log(what, a, "->", sets.size(), "type", r->type, describe(r->cs));
            sets.push_back(std::move(r));
        };
        switch (k) {
        case 0: fresh(); break;
        case 1: add("copied", sets[a]->copy(c.flip())); break;
        case 2:
        case 3: {
            auto to  = static_cast<int>(c.below(n_types));
            auto how = static_cast<int>(c.below(3));
            add("narrowed", sets[a]->convert(w, to, how));
            break;
        }
        case 4:
            add("narrowed through contexts",
                sets[a]->through_contexts(c, w, static_cast<int>(c.below(n_types))));
            break;
        case 5: {
            auto b = c.below(sets.size());
            c.log("merge", a, b);
            if (sets[a]->merge(c, w, *sets[b]) && sets[a]->type != sets[b]->type) {
                ++changed;
                c.label("merged");
            }
            break;
        }
        case 6:
        case 7: {
            auto b = c.below(sets.size());
            add("joined", sets[a]->join(w, *sets[b], static_cast<int>(c.below(n_types))));
            break;
        }
        case 8: {
            for (std::size_t b = 0; b < sets.size(); ++b)
                if (b != a && sets[b]->type == sets[a]->type) {
                    c.log("assign", a, "=", b);
                    sets[a]->assign(*sets[b]);
                    break;
                }
            break;
        }
        case 9:
            c.log("the originals change");
            mutate(c, w);
            break;
        }
        for (auto& s : sets)
            s->check(c, w, false);
        if (c.chance(1, 4))
            sets[c.below(sets.size())]->check(c, w, true);
    }
    if (changed >= 2)
        c.nontrivial();
}



// Factories: make_deps with values, references and tagged specifications
PBT_TARGET(factories, 1, "always: every case builds, narrows and reads sets of dependencies")
{
    world w;
    init(c, w);
    cells cs;
    auto cell_v = [](auto v) {
        cell x;
        x.present = true;
        x.value   = show_v(v);
        return x;
    };
    auto cell_at = [](int i, bool fn) {
        cell x;
        x.present = true;
        x.fn      = fn;
        x.where   = i;
        return x;
    };
    auto i  = static_cast<int>(c.below(n_objs));
    auto j  = static_cast<int>(c.below(n_objs));
    auto f  = static_cast<int>(c.below(4));
    auto n  = gen_value<int>(c);
    auto s  = gen_value<str>(c);
    auto fv = [&w, f] {
        ++w.calls[f];
        return w.things[w.at[f]];
    };
    auto fr = [&w, f]() -> str& {
        ++w.calls[f];
        return w.strs[w.at[f]];
    };
    c.nontrivial();
    switch (c.below(6)) {
    case 0: {
        cs[0] = cell_v(n);
        cs[1] = cell_v(s);
        cs[2] = cell_at(i, false);
        auto d = lager::make_deps(n, s, std::ref(w.things[i]));
        check_all(c, w, cs, d, true, static_cast<lager::deps<int, str, thing&>*>(nullptr));
        mutate(c, w);
        auto e = lager::deps<thing&, str, int>{d};
        check_all(c, w, cs, e, true, static_cast<lager::deps<int, str, thing&>*>(nullptr));
        break;
    }
    case 1: {
        cs[3] = cell_v(n);
        cs[4] = cell_at(j, false);
        cs[2] = cell_at(i, false);
        auto d = lager::make_deps(as<key<KA, int>>(n),
                                  as<key<KB, str&>>(w.strs[j]),
                                  as<ref<thing>>(w.things[i]));
        using D = lager::deps<key<KB, str&>, thing&, key<KA, int>>;
        check_all(c, w, cs, d, true, static_cast<D*>(nullptr));
        mutate(c, w);
        check_all(c, w, cs, D{d}, true, static_cast<D*>(nullptr));
        break;
    }
    case 2: {
        cs[5] = cell_at(f, true);
        cs[4] = cell_at(f, true);
        cs[0] = cell_v(n);
        auto d = lager::make_deps(
            as<key<KC, fn<thing>>>(fv), as<key<KB, fn<str&>>>(fr), as<val<int>>(n));
        using D = lager::deps<int, key<KC, fn<thing>>, key<KB, fn<str&>>>;
        check_all(c, w, cs, d, true, static_cast<D*>(nullptr));
        mutate(c, w);
        check_all(c, w, cs, D{d}, true, static_cast<D*>(nullptr));
        break;
    }
    case 3: {
        auto has = c.flip();
        cs[3]    = has ? cell_v(n) : cell{};
        cs[2]    = has ? cell_at(i, false) : cell{};
        using oi = key<KA, opt<int>>;
        using ot = opt<thing&>;
        auto si  = has ? std::optional<lager::dep::val<int>::storage>{n} : std::nullopt;
        auto st  = has ? std::optional<std::reference_wrapper<thing>>{w.things[i]} : std::nullopt;
        auto d   = lager::make_deps(as<oi>(si), as<ot>(st));
        using D  = lager::deps<ot, oi>;
        check_all(c, w, cs, d, true, static_cast<D*>(nullptr));
        mutate(c, w);
        check_all(c, w, cs, D{d}, true, static_cast<D*>(nullptr));
        break;
    }
    case 4: {
        // through a reference to const, the key is the const type
        const auto& k = w.things[i];
        auto d        = lager::deps<const thing&, int>::with(k, n);
        mutate(c, w);
        P_CHECK(&d.get<const thing>() == &k, "reference to const");
        auto e = lager::deps<const thing&>{d};
        P_CHECK(&e.get<const thing>() == &k, "reference to const, narrowed");
        auto g = lager::make_deps(std::cref(k));
        P_CHECK(&g.get<const thing>() == &k, "std::cref");
        break;
    }
    case 5: {
        // the values are copied in, and the argument stays as it was
        auto t = gen_value<thing>(c);
        auto u = t;
        auto d = lager::make_deps(t);
        auto e = lager::deps<thing>::with(std::move(u));
        P_CHECK(d.get<thing>() == t, "copied in");
        P_CHECK(e.get<thing>() == t, "moved in");
        auto was = t;
        t.text += "!";
        P_CHECK(d.get<thing>() == was, "holds its own copy");
        break;
    }
    }
}

// Dependencies of a store, as seen by its effects
struct go
{
    int which;
};
struct sub
{
    int which;
};
using act = std::variant<go, sub>;

PBT_TARGET(store_dependencies, 1, "at least two effects looked at the dependencies of the store")
{
    world w;
    init(c, w);
    auto n = gen_value<int>(c);
    auto s = gen_value<str>(c);
    auto t = gen_value<thing>(c);
    auto i = static_cast<int>(c.below(n_objs));
    auto f = static_cast<int>(c.below(4));
    cells cs;
    auto put = [&](int k, bool fn, int where, std::string value) {
        cs[k]         = cell{};
        cs[k].present = true;
        cs[k].fn      = fn;
        cs[k].where   = where;
        cs[k].value   = value;
    };
    put(0, false, 0, show_v(n));
    put(4, false, i, "");
    put(5, true, f, "");
    put(2, false, i, "");
    auto fv = [&w, f] {
        ++w.calls[f];
        return w.things[w.at[f]];
    };
    using all = lager::deps<int, key<KB, str&>, key<KC, fn<thing>>, thing&>;
    using e0  = lager::deps<thing&, int>;
    using e1  = lager::deps<opt<str>, key<KB, str&>, opt<thing&>>;
    using e2  = lager::deps<key<KC, fn<thing>>>;
    using e3  = lager::deps<key<KC, thing>, opt<key<KA, int>>>;
    auto seen = std::vector<int>{};
    auto look = [&](int id, const auto& ctx, auto* as) {
        auto m = derive_all(w, cs, as);
        check_all(c, w, m, ctx, true, as);
        seen.push_back(id);
    };
    auto reducer = [&](int m, act a) -> lager::result<int, act, all> {
        auto k = std::visit([](auto x) { return x.which; }, a);
        if (auto* x = std::get_if<sub>(&a); x && x->which < 0)
            return m;
        switch (k) {
        case 0: return {m + 1, [&](lager::context<act, e0> ctx) {
                            look(0, ctx, static_cast<e0*>(nullptr));
                        }};
        case 1: return {m + 1, [&](lager::context<sub, e1> ctx) {
                            look(1, ctx, static_cast<e1*>(nullptr));
                            // further down
                            auto less = lager::context<lager::actions<>, lager::deps<opt<thing&>>>{ctx};
                            look(10, less, static_cast<lager::deps<opt<thing&>>*>(nullptr));
                            ctx.dispatch(sub{-1});
                        }};
        case 2: return {m + 1, lager::effect<act, e2>{[&](auto&& ctx) {
                            look(2, ctx, static_cast<e2*>(nullptr));
                        }}};
        case 3: return {m + 1, [&](lager::context<go, e3> ctx) {
                            look(3, ctx, static_cast<e3*>(nullptr));
                        }};
        case 4: return {m + 1, [&](auto&& ctx) {
                            look(4, ctx, static_cast<all*>(nullptr));
                        }};
        default: return m;
        }
    };
    auto loop  = lager::with_manual_event_loop{};
    auto store = lager::make_store<act>(
        0,
        loop,
        lager::with_reducer(reducer),
        lager::with_deps(n,
                         as<key<KB, str&>>(w.strs[i]),
                         as<key<KC, fn<thing>>>(fv),
                         std::ref(w.things[i])));
    auto k = 0;
    while (c.more(4)) {
        if (c.chance(1, 3))
            mutate(c, w);
        auto which = static_cast<int>(c.below(5));
        c.log("dispatch", which);
        auto at = seen.size();
        if (c.flip())
            store.dispatch(go{which});
        else
            store.dispatch(sub{which});
        ++k;
        auto expected = which == 1 ? std::vector<int>{1, 10} : std::vector<int>{which};
        P_CHECK(std::vector<int>(seen.begin() + at, seen.end()) == expected, "effects run");
    }
    if (k >= 2)
        c.nontrivial();
}

} // namespace
