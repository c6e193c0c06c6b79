// C09: handles own their connections and values; nothing dangles or leaks.
#include <cassert>

#include <pbt.hpp>

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

#include <algorithm>
#include <memory>
#include <optional>
#include <vector>

using pbt::Case;

namespace {

using u64 = std::uint64_t;

struct V
{
    u64 x = 0;
    std::shared_ptr<int> tok; // in values of roots
    pbt::counted alive;
    V(u64 v = 0, std::shared_ptr<int> t = {})
        : x{v}
        , tok{std::move(t)}
    {}
    bool operator==(const V& o) const { return x == o.x; }
};

// injective, so that a change of any source changes what is derived
u64 mix(u64 a, u64 b)
{
    auto z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
    z      = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z      = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

enum kind
{
    root,
    map,
    zoom,
    merge
};

struct node
{
    kind k;
    std::vector<int> parents;
    std::weak_ptr<int> token; // expires with the node
    u64 cur = 0, pub = 0;
    bool changed = false; // by the running operation
    // a write that was reverted before the commit may notify
    bool altered = false, maybe = false;
};

struct callback
{
    int id;
    bool dead = false; // unbound or its handle destroyed
    int calls = 0;     // in the running operation
    bool fresh = false;
    bool acts  = false;
};

struct H
{
    int id;
    bool writes; // a cursor
    std::optional<lager::reader<V>> r;
    std::optional<lager::cursor<V>> k;
    int node      = -1;
    int touched   = 0; // by the running operation
    int notifying = 0;
    std::vector<std::shared_ptr<callback>> cbs;

    template <typename Fn>
    auto on(Fn&& fn)
    {
        return writes ? fn(*k) : fn(*r);
    }
};

template <typename Tag>
struct world
{
    using state_t              = lager::state<V, Tag>;
    static constexpr bool auto_ = std::is_same_v<Tag, lager::automatic_tag>;

    Case& c;
    std::vector<node> ns;
    std::vector<std::unique_ptr<state_t>> roots; // by node; null if dropped
    std::vector<std::unique_ptr<H>> hs;
    int ids = 0, cb_ids = 0;
    bool in_op   = false;
    int depth    = 0;
    int notified = 0, lifetime_ops = 0, inner_ops = 0, reassigned = 0,
        published = 0, writes = 0, released = 0;

    world(Case& c_)
        : c{c_}
    {
        P_EQ(pbt::counted::live(), 0);
    }

    // ---- model
    u64 eval(const node& n, bool pub) const
    {
        auto v = [&](int i) {
            return pub ? ns[n.parents[i]].pub : ns[n.parents[i]].cur;
        };
        switch (n.k) {
        case root:
            return pub ? n.pub : n.cur;
        case map:
            return mix(v(0), 1);
        case zoom:
            return ~v(0);
        default:
            return mix(mix(v(0), 2), v(1));
        }
    }
    bool alive(int i) const
    {
        if (i < (int) roots.size() && roots[i])
            return true;
        for (auto& h : hs)
            if (h && h->node == i)
                return true;
        for (std::size_t j = 0; j < ns.size(); ++j)
            for (auto p : ns[j].parents)
                if (p == i && alive(static_cast<int>(j)))
                    return true;
        return false;
    }
    void publish()
    {
        for (auto& n : ns) {
            auto v = n.k == root ? n.cur : eval(n, true);
            n.changed = v != n.pub;
            n.maybe   = n.altered;
            n.altered = false;
            for (auto p : n.parents)
                n.maybe |= ns[p].maybe;
            n.pub = v;
            if (n.k != root)
                n.cur = v;
            published += n.changed;
        }
    }

    // ---- checks
    void begin()
    {
        in_op = true;
        for (auto& n : ns)
            n.changed = n.maybe = false;
        for (auto& h : hs)
            if (h) {
                h->touched = 0;
                for (auto& b : h->cbs) {
                    b->calls = 0;
                    b->fresh = false;
                }
            }
    }
    void end(const char* what)
    {
        in_op = false;
        std::vector<char> live(ns.size());
        for (std::size_t i = 0; i < ns.size(); ++i) {
            live[i] = alive(static_cast<int>(i));
            auto is = !ns[i].token.expired();
            if (is != !!live[i])
                c.note_failure(std::string{what} + ": node " +
                               std::to_string(i) +
                               (is ? " is still alive although no handle "
                                     "refers to it"
                                   : " is gone although a handle needs it"));
            if (!live[i])
                ++released;
        }
        if (std::none_of(live.begin(), live.end(), [](char x) { return x; }) &&
            pbt::counted::live() != 0)
            c.note_failure(std::string{what} + ": " +
                           std::to_string(pbt::counted::live()) +
                           " values leaked");
        for (auto& h : hs) {
            if (!h)
                continue;
            if (h->node < 0) {
                bool threw = false;
                try {
                    h->on([](auto& x) { (void) x.get(); });
                } catch (const std::runtime_error&) {
                    threw = true;
                }
                P_CHECK(threw, "reading h", h->id, " without a source");
            } else {
                auto got = h->on([](auto& x) { return x.get().x; });
                P_EQ(got, ns[h->node].pub, what, ": h", h->id);
            }
            for (auto& b : h->cbs) {
                if (b->dead || b->fresh || h->touched)
                    continue;
                auto want = h->node >= 0 && ns[h->node].changed;
                auto more = h->node >= 0 && ns[h->node].maybe;
                P_CHECK(b->calls == want || (more && b->calls == 1),
                        what,
                        ": callback ",
                        b->id,
                        " of h",
                        h->id,
                        " (node ",
                        h->node,
                        ") called ",
                        b->calls,
                        " times instead of ",
                        want);
            }
        }
        if (c.failed())
            throw pbt::failure{""};
    }
    void called(H* h, callback* b, const V& v)
    {
        ++notified;
        if (b->dead) {
            c.note_failure("callback " + std::to_string(b->id) +
                           " invoked after its handle was unbound or "
                           "destroyed");
            return;
        }
        ++b->calls;
        if (!in_op)
            c.note_failure("callback invoked outside of any operation");
        else if (h->node < 0)
            c.note_failure("callback invoked without a source");
        else if (v.x != ns[h->node].pub)
            c.note_failure("callback " + std::to_string(b->id) + " of h" +
                           std::to_string(h->id) + " invoked with a value " +
                           "its handle does not have");
        else if (!ns[h->node].changed && !ns[h->node].maybe && !h->touched)
            c.note_failure("callback invoked without a change");
        else if (b->calls > 1 + h->touched)
            c.note_failure("callback invoked repeatedly for one change");
        if (b->acts && depth == 0 && !c.failed()) {
            ++depth;
            ++h->notifying;
            auto alive_h = h;
            int n        = 1 + c.below(3);
            while (n--) {
                c.log("  in callback ", b->id, " of h", h->id, ":");
                lifetime_op(true);
                ++inner_ops;
            }
            --alive_h->notifying;
            --depth;
        }
    }

    // ---- operations
    H* pick(bool writable, bool with_node)
    {
        std::vector<H*> xs;
        for (auto& h : hs)
            if (h && (!writable || h->writes) && (!with_node || h->node >= 0))
                xs.push_back(h.get());
        if (xs.empty())
            return nullptr;
        return xs[xs.size() - 1 - c.below(static_cast<std::uint32_t>(xs.size()))];
    }
    H* add(bool cursor, int n)
    {
        auto h    = std::make_unique<H>();
        h->id     = ids++;
        h->writes = cursor;
        h->node   = n;
        // handles made by an operation are not judged by it
        h->touched = 1;
        hs.push_back(std::move(h));
        return hs.back().get();
    }
    int add_node(kind k, std::vector<int> ps, std::shared_ptr<int> tok)
    {
        node n;
        n.k       = k;
        n.parents = std::move(ps);
        n.token   = tok;
        ns.push_back(n);
        ns.back().cur = eval(ns.back(), false);
        ns.back().pub = eval(ns.back(), true);
        return static_cast<int>(ns.size()) - 1;
    }
    bool pending(int i) const
    {
        if (ns[i].k == root)
            return ns[i].cur != ns[i].pub || ns[i].altered;
        for (auto p : ns[i].parents)
            if (pending(p))
                return true;
        return false;
    }

    void new_root()
    {
        if (ns.size() > 24)
            return;
        auto tok  = std::make_shared<int>(0);
        auto v    = static_cast<u64>(c.small(5));
        auto i    = add_node(root, {}, tok);
        ns[i].cur = ns[i].pub = v;
        while ((int) roots.size() <= i)
            roots.push_back(nullptr);
        roots[i] = std::make_unique<state_t>(V{v, tok});
        auto h   = add(true, i);
        h->k.emplace(*roots[i]);
        c.log("h", h->id, " = root node ", i);
    }
    void derive(H* a)
    {
        // what is derived from pending values shows them before their commit
        if (ns.size() > 24 || pending(a->node))
            return;
        auto tok = std::make_shared<int>(0);
        auto an  = a->node;
        switch (c.below(3)) {
        case 0: {
            auto f = [tok](const V& v) { return V{mix(v.x, 1)}; };
            auto i = add_node(map, {an}, tok);
            tok.reset();
            auto h = add(false, i);
            a->on([&](auto& x) {
                if (c.flip())
                    h->r.emplace(x.map(f));
                else // through an unnamed handle
                    h->r.emplace(lager::reader<V>{x}.map(f));
            });
            c.log("h", h->id, " = node ", i, " = map of node ", an);
            break;
        }
        case 1: {
            auto l = lager::lenses::getset(
                [tok](const V& v) { return V{~v.x}; },
                [tok](const V& w, const V& v) { return V{~v.x, w.tok}; });
            auto i = add_node(zoom, {an}, tok);
            tok.reset();
            if (a->writes) {
                auto h = add(true, i);
                h->k.emplace(a->k->zoom(l));
                c.log("h", h->id, " = node ", i, " = zoom of node ", an);
            } else {
                auto h = add(false, i);
                h->r.emplace(a->r->zoom(l));
                c.log("h", h->id, " = node ", i, " = zoom of node ", an);
            }
            break;
        }
        default: {
            auto b = pick(false, true);
            if (!b || b->node == an || pending(b->node))
                return;
            auto f = [tok](const V& x, const V& y) {
                return V{mix(mix(x.x, 2), y.x)};
            };
            auto i = add_node(merge, {an, b->node}, tok);
            tok.reset();
            auto bn = b->node;
            auto h  = add(false, i);
            a->on([&](auto& x) {
                b->on([&](auto& y) { h->r.emplace(lager::with(x, y).map(f)); });
            });
            c.log("h", h->id, " = node ", i, " = merge of ", an, " and ", bn);
        }
        }
    }
    void copy(H* a)
    {
        auto cursor = a->writes && c.flip();
        auto moved  = c.chance(1, 3);
        auto h      = add(cursor, a->node);
        if (cursor) {
            if (moved) { // the source goes away with its callbacks
                auto t = std::make_unique<lager::cursor<V>>(*a->k);
                lager::watch(*t, [](const V&) {});
                bool called = false;
                t->watch([&](const V&) { called = true; });
                h->k.emplace(std::move(*t));
                t.reset();
            } else
                h->k.emplace(*a->k);
        } else if (a->writes)
            h->r.emplace(*a->k);
        else if (moved) {
            auto t      = std::make_unique<lager::reader<V>>(*a->r);
            bool called = false;
            t->watch([&](const V&) { called = true; });
            h->r.emplace(std::move(*t));
            t.reset();
        } else
            h->r.emplace(*a->r);
        c.log("h", h->id, " = ", moved ? "moved " : "", "copy of h", a->id);
    }
    void empty_handle()
    {
        auto h = add(c.flip(), -1);
        if (h->writes)
            h->k.emplace();
        else
            h->r.emplace();
        c.log("h", h->id, " without a source");
    }
    void assign(H* a)
    {
        if (a->notifying)
            return;
        auto b = c.chance(1, 6) ? nullptr : pick(a->writes, false);
        ++reassigned;
        ++a->touched;
        if (!b) {
            c.log("h", a->id, " = {}");
            a->node = -1;
            if (a->writes)
                *a->k = lager::cursor<V>{};
            else
                *a->r = lager::reader<V>{};
            return;
        }
        auto moved = c.chance(1, 3);
        c.log("h", a->id, " = h", b->id, moved ? " (temporary)" : "");
        auto n = b->node;
        if (a->writes) {
            if (moved) {
                auto t = lager::cursor<V>{*b->k};
                *a->k  = std::move(t);
            } else
                *a->k = *b->k;
        } else if (b->writes)
            *a->r = *b->k;
        else if (moved) {
            auto t = lager::reader<V>{*b->r};
            *a->r  = std::move(t);
        } else
            *a->r = *b->r;
        a->node = n;
    }
    void watch(H* h)
    {
        if (cb_ids > 30)
            return;
        auto b   = std::make_shared<callback>();
        b->id    = cb_ids++;
        b->fresh = true;
        b->acts  = c.chance(1, 2);
        auto bind = h->node >= 0 && c.chance(1, 4);
        c.log(bind ? "bind" : "watch",
              " callback ",
              b->id,
              " on h",
              h->id,
              b->acts ? " (acting)" : "");
        auto bound = 0;
        auto fn    = [this, h, b, &bound](const V& v) {
            if (b->calls < 0) { // binding
                ++bound;
                if (v.x != ns[h->node].pub)
                    c.note_failure("bound with a wrong value");
                return;
            }
            called(h, b.get(), v);
        };
        if (bind) {
            b->calls = -1;
            h->on([&](auto& x) { x.bind(fn); });
            b->calls = 0;
            if (bound != 1)
                c.note_failure("bind invoked the callback " +
                               std::to_string(bound) + " times");
        } else
            h->on([&](auto& x) { x.watch(fn); });
        h->cbs.push_back(b);
    }
    void unbind(H* h)
    {
        if (h->notifying)
            return;
        c.log("unbind h", h->id);
        for (auto& b : h->cbs)
            b->dead = true;
        h->cbs.clear();
        h->on([](auto& x) { x.unbind(); });
    }
    void destroy(H* h)
    {
        if (h->notifying)
            return;
        c.log("destroy h", h->id);
        for (auto& b : h->cbs)
            b->dead = true;
        for (auto& p : hs)
            if (p.get() == h) {
                auto dying = std::move(p); // gone for the model
                dying.reset();
            }
    }
    void lifetime_op(bool inside)
    {
        ++lifetime_ops;
        auto k = c.below(9);
        if (k == 8 && !inside) {
            // drop a root; its value stays while handles refer to it
            std::vector<int> rs;
            for (std::size_t i = 0; i < roots.size(); ++i)
                if (roots[i] && !pending(static_cast<int>(i)))
                    rs.push_back(static_cast<int>(i));
            if (rs.size() > 1) {
                auto i = c.pick(rs);
                c.log("drop the root ", i);
                roots[i].reset();
            }
            return;
        }
        if (k == 5)
            return empty_handle();
        auto h = pick(false, k == 3 || k == 4);
        if (!h)
            return;
        switch (k) {
        case 0:
            return destroy(h);
        case 1:
            return assign(h);
        case 2:
            return unbind(h);
        case 3:
            return derive(h);
        case 4:
            return copy(h);
        default:
            return watch(h);
        }
    }

    // whether the roots under a node can be published
    bool reachable(int i) const
    {
        if (ns[i].k == root)
            return auto_ || (i < (int) roots.size() && roots[i]);
        for (auto p : ns[i].parents)
            if (!reachable(p))
                return false;
        return true;
    }
    void write()
    {
        auto h = pick(true, true);
        if (!h || !reachable(h->node))
            return;
        auto v = static_cast<u64>(c.small(5));
        auto i = h->node;
        auto x = v;
        while (ns[i].k != root) {
            x = ~x;
            i = ns[i].parents[0];
        }
        ns[i].cur = x;
        ns[i].altered |= x != ns[i].pub;
        for (auto& n : ns)
            if (n.k != root)
                n.cur = eval(n, false);
        ++writes;
        c.log("h", h->id, ".set(", v, ")");
        begin();
        if (auto_)
            publish();
        // the handle may be destroyed by a callback while it is used
        auto own = c.flip();
        auto val = V{v, ns[h->node].k == root ? ns[i].token.lock() : nullptr};
        if (own) {
            auto t = lager::cursor<V>{*h->k};
            t.set(std::move(val));
        } else {
            ++h->notifying;
            h->k->set(std::move(val));
            --h->notifying;
        }
        end("set");
    }
    void commit_all()
    {
        begin();
        publish();
        c.log("commit");
        std::vector<state_t*> rs;
        for (auto& r : roots)
            if (r)
                rs.push_back(r.get());
        if (rs.size() == 1)
            lager::commit(*rs[0]);
        else if (rs.size() == 2)
            lager::commit(*rs[0], *rs[1]);
        else if (rs.size() == 3)
            lager::commit(*rs[1], *rs[0], *rs[2]);
        end("commit");
    }

    void run()
    {
        int nroots = 1 + c.small(3);
        while (nroots--)
            new_root();
        for (int n = c.small(6); n > 0; --n)
            if (auto h = pick(false, true))
                derive(h);
        for (int n = c.small(5); n > 0; --n)
            if (auto h = pick(false, false))
                watch(h);
        int ops = 0;
        while (ops++ < 60 && c.more(20)) {
            switch (c.below(4)) {
            case 0:
                write();
                break;
            case 1:
                if (!auto_) {
                    commit_all();
                    break;
                }
                write();
                break;
            default:
                begin();
                lifetime_op(false);
                end("operation");
            }
        }
        // everything in some order
        while (!hs.empty() && c.flip()) {
            auto i = c.below(static_cast<std::uint32_t>(hs.size()));
            if (hs[i]) {
                begin();
                destroy(hs[i].get());
                end("destroy");
            }
        }
        roots.clear();
        for (auto& h : hs)
            if (h)
                destroy(h.get());
        P_EQ(pbt::counted::live(), 0, "at the end");
        for (auto& n : ns)
            P_CHECK(n.token.expired(), "a function leaked");
    }
};

template <typename Tag>
void lifetimes(Case& c)
{
    pbt::counted::live() = 0;
    world<Tag> w{c};
    w.run();
    c.nontrivial(w.notified > 0 && w.lifetime_ops > 3);
    c.label("lifetime operation inside of a watcher", w.inner_ops > 0);
    c.label("handle reassigned", w.reassigned > 0);
}

} // namespace

PBT_TARGET(transactional_handles,
           4,
           "callbacks were invoked and handles were created, assigned, "
           "unbound or destroyed in between")
{
    lifetimes<lager::transactional_tag>(c);
}

PBT_TARGET(automatic_handles,
           4,
           "callbacks were invoked and handles were created, assigned, "
           "unbound or destroyed in between")
{
    lifetimes<lager::automatic_tag>(c);
}
