// C25: setter cursors forward each write once and settle on the true value.
//
// A source (state or store; automatic or transactional; dispatching at once or
// through a queue) is viewed through identity, a mapping or a member lens;
// setter cursors of both kinds hang from the view or from other setter
// cursors, with lenses and maps on top.  The oracle keeps, for the view and
// every setter cursor, the value it should show and the value further writes
// compose on.
#include <cassert>

#include <lager/commit.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/with.hpp>

#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <vector>

#include "pbt.hpp"

using pbt::Case;

namespace {

struct val
{
    int a = 0;
    int b = 0;
    std::string s;

    friend bool operator==(const val& x, const val& y)
    {
        return x.a == y.a && x.b == y.b && x.s == y.s;
    }
};

// the same without equality: every publication counts as a change
struct raw
{
    int a = 0;
    int b = 0;
    std::string s;
};

template <typename V>
bool same(const V& x, const V& y)
{
    return x.a == y.a && x.b == y.b && x.s == y.s;
}
bool changed(const val& x, const val& y) { return !(x == y); }
bool changed(const raw&, const raw&) { return true; }

template <typename V>
std::string text_of(const V& v)
{
    return "{" + std::to_string(v.a) + "," + std::to_string(v.b) + "," + v.s +
           "}";
}

// what the setter functions do with a value
enum class fn_kind
{
    identity,
    alter,  // writes something else than it was given
    drop,    // ignores the write
    sift,    // ignores some
    twice,   // writes something else first
    n_kinds
};

const char* const fn_names[] = {"identity", "alter", "drop", "sift", "twice"};

template <typename V>
V altered_value(V v)
{
    // (never the way back to an earlier value)
    v.a += 5000000;
    return v;
}

// the writes to the parent that a setter function makes for a value
template <typename V>
std::vector<V> forwarded(fn_kind k, const V& v)
{
    switch (k) {
    case fn_kind::identity:
        return {v};
    case fn_kind::alter:
        return {altered_value(v)};
    case fn_kind::drop:
        return {};
    case fn_kind::sift:
        return v.a % 2 ? std::vector<V>{v} : std::vector<V>{};
    case fn_kind::twice:
        return {altered_value(v), v};
    default:
        return {};
    }
}

enum class view_kind
{
    direct,
    identity,
    shift,
    n_kinds
};

template <typename V>
V shift_by(V v, int n)
{
    v.b += n;
    return v;
}

// the source under test behind one interface
template <typename V>
struct source
{
    std::string name;
    bool automatic = false;
    bool queued    = false;
    std::function<void(V)> write;
    std::function<V()> get;
    std::function<void()> commit;
    std::function<bool()> step; // one queued action; false if none
    std::function<lager::reader<V>(view_kind)> view;
    std::shared_ptr<void> owner;
};

template <typename V, typename S>
lager::reader<V> view_of(S& s, view_kind k)
{
    switch (k) {
    case view_kind::direct:
        return s;
    case view_kind::identity:
        return s.xform(zug::identity);
    default:
        return s.map([](const V& v) { return shift_by(v, 1); });
    }
}

template <typename V, typename Tag>
source<V> state_source(V init)
{
    auto s       = std::make_shared<lager::state<V, Tag>>(init);
    auto r       = source<V>{};
    r.automatic  = std::is_same_v<Tag, lager::automatic_tag>;
    r.name       = r.automatic ? "automatic state" : "transactional state";
    r.write      = [p = s.get()](V v) { p->set(std::move(v)); };
    r.get        = [p = s.get()] { return p->get(); };
    r.commit     = [p = s.get()] { lager::commit(*p); };
    r.step       = [] { return false; };
    r.view       = [p = s.get()](view_kind k) { return view_of<V>(*p, k); };
    r.owner      = s;
    return r;
}

template <typename V>
struct put
{
    V v;
};

// a queue of posted functions, run by hand
struct hand_loop
{
    std::shared_ptr<std::vector<std::function<void()>>> q =
        std::make_shared<std::vector<std::function<void()>>>();

    void post(std::function<void()> f) { q->push_back(std::move(f)); }
    template <typename Fn>
    void async(Fn&&)
    {}
    void finish() {}
    void pause() {}
    void resume() {}
};

template <typename V, typename Tag>
source<V> queued_store(V init)
{
    auto loop = hand_loop{};
    auto st   = lager::make_store<put<V>, Tag>(
        init, loop, lager::with_reducer([](V, put<V> a) { return a.v; }));
    using st_t  = decltype(st);
    auto s      = std::make_shared<st_t>(std::move(st));
    auto r      = source<V>{};
    r.automatic = std::is_same_v<Tag, lager::automatic_tag>;
    r.queued    = true;
    r.name      = r.automatic ? "queued automatic store"
                              : "queued transactional store";
    r.write     = [p = s.get()](V v) { p->dispatch(put<V>{std::move(v)}); };
    r.get       = [p = s.get()] { return p->get(); };
    r.commit    = [p = s.get()] { lager::commit(*p); };
    r.step      = [q = loop.q] {
        // one action with everything it posts
        if (q->empty())
            return false;
        auto rest = std::vector<std::function<void()>>{};
        rest.swap(*q);
        auto todo = std::vector<std::function<void()>>{std::move(rest[0])};
        rest.erase(rest.begin());
        while (!todo.empty()) {
            for (auto& f : todo)
                f();
            todo.clear();
            todo.swap(*q);
        }
        q->swap(rest);
        return true;
    };
    r.view  = [p = s.get()](view_kind k) { return view_of<V>(*p, k); };
    r.owner = s;
    return r;
}

template <typename V, typename Tag>
source<V> manual_store(V init)
{
    auto st = lager::make_store<put<V>, Tag>(
        init,
        lager::with_manual_event_loop{},
        lager::with_reducer([](V, put<V> a) { return a.v; }));
    using st_t  = decltype(st);
    auto s      = std::make_shared<st_t>(std::move(st));
    auto r      = source<V>{};
    r.automatic = std::is_same_v<Tag, lager::automatic_tag>;
    r.name      = r.automatic ? "automatic store" : "transactional store";
    r.write     = [p = s.get()](V v) { p->dispatch(put<V>{std::move(v)}); };
    r.get       = [p = s.get()] { return p->get(); };
    r.commit    = [p = s.get()] { lager::commit(*p); };
    r.step      = [] { return false; };
    r.view      = [p = s.get()](view_kind k) { return view_of<V>(*p, k); };
    r.owner     = s;
    return r;
}

template <typename V>
source<V> any_source(unsigned k, V init)
{
    switch (k) {
    case 0:
        return state_source<V, lager::automatic_tag>(init);
    case 1:
        return state_source<V, lager::transactional_tag>(init);
    case 2:
        return queued_store<V, lager::automatic_tag>(init);
    case 3:
        return queued_store<V, lager::transactional_tag>(init);
    case 4:
        return manual_store<V, lager::transactional_tag>(init);
    default:
        return manual_store<V, lager::automatic_tag>(init);
    }
}

template <typename V>
struct world
{
    struct watch_log
    {
        std::vector<V> seen;
        std::vector<V> expected;
    };
    struct int_log
    {
        int initial = 0;
        std::vector<int> seen;
        std::vector<int> expected;
    };

    // a derived value that pending writes altered and that then settled on
    // what it was may be notified again (see C06)
    static std::vector<int> without_repeats(const int_log& l)
    {
        auto r    = std::vector<int>{};
        auto last = l.initial;
        for (auto x : l.seen) {
            if (x != last)
                r.push_back(x);
            last = x;
        }
        return r;
    }

    // a setter cursor with its lenses and watchers, and its model
    struct setter
    {
        int parent     = -1; // another setter, or the view
        bool automatic = false;
        fn_kind kind   = fn_kind::identity;

        lager::cursor<V> handle;
        lager::cursor<int> a, b;
        lager::cursor<std::string> s;
        lager::reader<int> sum;
        bool has_handle = true;

        std::vector<V> calls; // the arguments the function got
        std::vector<V> calls_expected;

        V shown, current;
        int shown_sum = 0, shown_a = 0;
        bool watched = false, sum_watched = false, a_watched = false;
        watch_log log;
        int_log sum_log, a_log;
        int generation = 0; // how often the parent published
    };

    Case& c;
    source<V> src;
    view_kind view;
    lager::reader<V> viewed;
    std::vector<std::unique_ptr<setter>> setters;
    std::vector<V> queue; // the actions posted and not applied
    V published, pending;
    bool dirty = false;
    int next   = 1;

    int writes = 0, altered = 0, settled = 0, composed = 0, chained = 0,
        lone_changes = 0;

    world(Case& c_)
        : c{c_}
    {}

    // -- the model -----------------------------------------------------------

    V viewed_value(const V& v) const
    {
        return view == view_kind::shift ? shift_by(v, 1) : v;
    }

    void show(setter& s, const V& v)
    {
        // every change a setter cursor shows reaches its watchers once
        s.shown = v;
        if (s.watched)
            s.log.expected.push_back(v);
        if (s.shown_sum != v.a + v.b) {
            s.shown_sum = v.a + v.b;
            if (s.sum_watched)
                s.sum_log.expected.push_back(s.shown_sum);
        }
        if (s.shown_a != v.a) {
            s.shown_a = v.a;
            if (s.a_watched)
                s.a_log.expected.push_back(v.a);
        }
    }

    void parent_published(int parent, const V& v)
    {
        for (auto i = 0u; i < setters.size(); ++i) {
            auto& s = *setters[i];
            if (s.parent != parent)
                continue;
            if (changed(s.shown, v) && !same(s.shown, v) &&
                !same(s.current, v))
                ++settled;
            auto change = changed(s.shown, v);
            s.current   = v;
            ++s.generation;
            if (change) {
                show(s, v);
                parent_published(static_cast<int>(i), v);
            }
        }
    }

    void publish_source()
    {
        if (!dirty)
            return;
        dirty     = false;
        published = pending;
        parent_published(-1, viewed_value(published));
    }

    void write_source(const V& v)
    {
        if (src.queued) {
            queue.push_back(v);
        } else {
            apply(v);
        }
    }

    void apply(const V& v)
    {
        if (changed(pending, v)) {
            pending = v;
            dirty   = true;
        }
        if (src.automatic)
            publish_source();
    }

    void write_setter(int i, const V& v)
    {
        auto& s = *setters[i];
        s.calls_expected.push_back(v);
        auto g = s.generation;
        for (auto& w : forwarded(s.kind, v))
            write_parent(s, w);
        if (s.generation != g)
            return; // the source has had its say already
        if (s.automatic) {
            auto change = changed(s.shown, v);
            s.current   = v;
            if (change) {
                show(s, v);
                parent_published(i, v);
            }
        } else {
            s.current = v;
        }
    }

    void write_parent(setter& s, const V& v)
    {
        if (s.parent < 0)
            write_source(view == view_kind::shift ? shift_by(v, -1) : v);
        else
            write_setter(s.parent, v);
    }

    // -- the real thing ------------------------------------------------------

    void forward(int i, const V& v)
    {
        auto& s = *setters[i];
        for (auto w : forwarded(s.kind, v)) {
            if (s.parent < 0)
                src.write(view == view_kind::shift ? shift_by(w, -1) : w);
            else
                setters[s.parent]->handle.set(w);
        }
    }

    void make_setter()
    {
        auto p    = std::make_unique<setter>();
        auto i    = static_cast<int>(setters.size());
        auto& s   = *p;
        s.parent  = -1;
        if (i && c.chance(1, 3)) {
            auto k = static_cast<int>(c.below(i));
            // a parent that shows what it composes on, and has its handle
            if (same(setters[k]->shown, setters[k]->current) &&
                setters[k]->has_handle) {
                s.parent = k;
                ++chained;
            }
        }
        s.automatic = c.flip();
        s.kind      = static_cast<fn_kind>(
            c.below(static_cast<unsigned>(fn_kind::n_kinds)));
        s.shown = s.current = s.parent < 0 ? viewed_value(published)
                                           : setters[s.parent]->shown;
        auto fn = [this, i](const V& v) {
            setters[i]->calls.push_back(v);
            forward(i, v);
        };
        auto from = [&](auto&& r) -> lager::cursor<V> {
            switch (c.below(3)) {
            case 0:
                return s.automatic
                           ? lager::cursor<V>(
                                 r.template setter<lager::automatic_tag>(fn))
                           : lager::cursor<V>(r.setter(fn));
            case 1:
                return s.automatic
                           ? lager::cursor<V>(lager::with_setter(
                                 r, fn, lager::automatic_tag{}))
                           : lager::cursor<V>(lager::with_setter(
                                 r, fn, lager::transactional_tag{}));
            default:
                return s.automatic
                           ? lager::cursor<V>(
                                 lager::with(r)
                                     .map([](const V& v) { return v; })
                                     .template setter<lager::automatic_tag>(
                                         fn))
                           : lager::cursor<V>(
                                 lager::with(r)
                                     .map([](const V& v) { return v; })
                                     .setter(fn));
            }
        };
        if (s.parent < 0)
            s.handle = from(viewed);
        else
            s.handle = from(lager::reader<V>(setters[s.parent]->handle));
        s.shown_sum = s.shown.a + s.shown.b;
        s.shown_a   = s.shown.a;
        s.a         = s.handle[&V::a];
        s.b         = s.handle.zoom(lager::lenses::attr(&V::b));
        s.s         = s.handle[&V::s];
        s.sum       = s.handle.map([](const V& v) { return v.a + v.b; });
        c.log("setter s",
              i,
              " of ",
              s.parent < 0 ? std::string("the source")
                           : "s" + std::to_string(s.parent),
              s.automatic ? ", automatic, " : ", transactional, ",
              fn_names[static_cast<int>(s.kind)]);
        if (c.chance(2, 3)) {
            s.watched = true;
            s.handle.watch([this, q = p.get()](const V& v) {
                q->log.seen.push_back(v);
                if (!same(q->handle.get(), v))
                    c.note_failure("a watcher of a setter cursor got " +
                                   text_of(v) + " while it reads " +
                                   text_of(q->handle.get()));
            });
        }
        if (c.chance(1, 3)) {
            s.sum_watched     = true;
            s.sum_log.initial = s.shown_sum;
            s.sum.watch([q = p.get()](int v) { q->sum_log.seen.push_back(v); });
        }
        if (c.chance(1, 3)) {
            s.a_watched     = true;
            s.a_log.initial = s.shown_a;
            s.a.watch([q = p.get()](int v) { q->a_log.seen.push_back(v); });
        }
        setters.push_back(std::move(p));
    }

    // sums of these with the numbers that are set (less than 10000) do not
    // come out the same
    static int step_of(int n)
    {
        return static_cast<int>(10000 + n * 2654435761ull % 9999991);
    }

    V fresh()
    {
        auto n = next++;
        return V{n, n * 100, std::string(n % 40, 'x') + std::to_string(n)};
    }

    void op_write()
    {
        auto i  = static_cast<int>(c.below(setters.size()));
        auto& s = *setters[i];
        auto v  = s.current;
        ++writes;
        if (s.kind != fn_kind::identity && s.kind != fn_kind::drop)
            ++altered;
        switch (c.below(s.has_handle ? 9 : 4) + (s.has_handle ? 0 : 3)) {
        case 0: {
            v = fresh();
            c.log("s", i, ".set(", text_of(v), ")");
            const auto w = v;
            write_setter(i, w);
            s.handle.set(w);
            break;
        }
        case 1: {
            v = fresh();
            c.log("s", i, ".set(move ", text_of(v), ")");
            write_setter(i, v);
            s.handle.set(V(v));
            break;
        }
        case 2: {
            auto d = next++;
            v.a    = d;
            v.s += "!";
            c.log("s", i, ".update(a = ", d, ", s += !)");
            composed += same(s.shown, s.current) ? 0 : 1;
            write_setter(i, v);
            s.handle.update([d](V x) {
                x.a = d;
                x.s += "!";
                return x;
            });
            break;
        }
        case 3: {
            v.a = next++;
            c.log("s", i, "[a].set(", v.a, ")");
            composed += same(s.shown, s.current) ? 0 : 1;
            write_setter(i, v);
            s.a.set(v.a);
            break;
        }
        case 4: {
            v.b = 100 * next++;
            c.log("s", i, "[b].set(", v.b, ")");
            composed += same(s.shown, s.current) ? 0 : 1;
            write_setter(i, v);
            s.b.set(v.b);
            break;
        }
        case 5: {
            // (never the way back to an earlier value, see `step_of`)
            auto d = step_of(next++);
            v.b += d;
            c.log("s", i, "[b].update(+", d, ")");
            composed += same(s.shown, s.current) ? 0 : 1;
            write_setter(i, v);
            s.b.update([d](int x) { return x + d; });
            break;
        }
        case 6: {
            auto d = "?" + std::to_string(next++);
            v.s += d;
            c.log("s", i, "[s].update(+", d, ")");
            write_setter(i, v);
            s.s.update([d](std::string x) { return x + d; });
            break;
        }
        case 7: {
            // the value it has already: the function is still called
            if (dirty || !queue.empty() || !same(s.shown, s.current) ||
                s.kind != fn_kind::identity || s.parent >= 0 ||
                !same(viewed_value(published), s.current)) {
                v = fresh();
            }
            c.log("s", i, ".set(", text_of(v), ") (maybe the same)");
            write_setter(i, v);
            s.handle.set(v);
            break;
        }
        default: {
            auto d = "$" + std::to_string(next++);
            v.s += d;
            c.log("s", i, ".update(s += ", d, ")");
            write_setter(i, v);
            s.handle.update([d](const V& x) {
                auto y = x;
                y.s += d;
                return y;
            });
            break;
        }
        }
    }

    void op_both()
    {
        if (setters.size() < 2)
            return;
        auto i  = static_cast<int>(c.below(setters.size()));
        auto j  = static_cast<int>(c.below(setters.size() - 1));
        j       = j >= i ? j + 1 : j;
        auto& x = *setters[i];
        auto& y = *setters[j];
        if (!x.has_handle || !y.has_handle)
            return;
        auto v = fresh();
        auto w = fresh();
        c.log("with(s", i, ",s", j, ").set(", text_of(v), ", ", text_of(w), ")");
        ++writes;
        write_setter(i, v);
        write_setter(j, w);
        if constexpr (std::is_same_v<V, val>) {
            auto m = lager::cursor<std::tuple<V, V>>(
                lager::with(x.handle, y.handle));
            m.set(std::make_tuple(v, w));
        } else {
            // (a tuple of these cannot be compared, so it does not compile)
            x.handle.set(v);
            y.handle.set(w);
        }
    }

    void op_source()
    {
        auto v = fresh();
        c.log("source <- ", text_of(v));
        ++lone_changes;
        write_source(v);
        src.write(v);
    }

    void op_step()
    {
        c.log("run one queued action");
        if (!queue.empty()) {
            auto v = queue.front();
            queue.erase(queue.begin());
            apply(v);
        }
        src.step();
    }

    void op_commit()
    {
        c.log("commit");
        publish_source();
        src.commit();
    }

    void op_drop()
    {
        auto& s = c.pick(setters);
        // only the derived handles keep the setter cursor alive
        if (!s->has_handle || s->watched)
            return;
        for (auto& o : setters)
            if (o->parent >= 0 && setters[o->parent].get() == s.get())
                return;
        c.log("drop a handle");
        s->has_handle = false;
        s->handle     = {};
    }

    void check()
    {
        if (!same(src.get(), published))
            c.fail("the source shows " + text_of(src.get()) + " instead of " +
                   text_of(published));
        if (!same(viewed.get(), viewed_value(published)))
            c.fail("the view shows " + text_of(viewed.get()));
        for (auto i = 0u; i < setters.size(); ++i) {
            auto& s   = *setters[i];
            auto name = "s" + std::to_string(i);
            if (s.calls.size() != s.calls_expected.size())
                c.fail(name + ": the setter function was called " +
                       std::to_string(s.calls.size()) + " times instead of " +
                       std::to_string(s.calls_expected.size()));
            for (auto k = 0u; k < s.calls.size(); ++k)
                if (!same(s.calls[k], s.calls_expected[k]))
                    c.fail(name + ": the setter function got " +
                           text_of(s.calls[k]) + " instead of " +
                           text_of(s.calls_expected[k]));
            if (s.has_handle && !same(s.handle.get(), s.shown))
                c.fail(name + " shows " + text_of(s.handle.get()) +
                       " instead of " + text_of(s.shown));
            if (s.a.get() != s.shown.a || s.b.get() != s.shown.b ||
                s.s.get() != s.shown.s)
                c.fail("the lenses of " + name + " show " +
                       text_of(V{s.a.get(), s.b.get(), s.s.get()}) +
                       " instead of " + text_of(s.shown));
            if (s.sum.get() != s.shown.a + s.shown.b)
                c.fail("the map of " + name + " shows " +
                       std::to_string(s.sum.get()));
            if (s.log.seen.size() != s.log.expected.size())
                c.fail("the watcher of " + name + " ran " +
                       std::to_string(s.log.seen.size()) +
                       " times instead of " +
                       std::to_string(s.log.expected.size()));
            for (auto k = 0u; k < s.log.seen.size(); ++k)
                if (!same(s.log.seen[k], s.log.expected[k]))
                    c.fail("the watcher of " + name + " got " +
                           text_of(s.log.seen[k]) + " instead of " +
                           text_of(s.log.expected[k]));
            P_EQ(without_repeats(s.sum_log), s.sum_log.expected);
            P_EQ(without_repeats(s.a_log), s.a_log.expected);
        }
    }

    void run()
    {
        auto init = V{0, 0, "init"};
        src       = any_source<V>(c.below(6), init);
        view      = static_cast<view_kind>(
            c.below(static_cast<unsigned>(view_kind::n_kinds)));
        viewed    = src.view(view);
        published = pending = init;
        c.log(src.name, ", view ", static_cast<int>(view));
        make_setter();
        while (setters.size() < 4 && c.more(1))
            make_setter();
        check();
        while (c.more(14)) {
            switch (c.below(12)) {
            default:
                op_write();
                break;
            case 5:
            case 6:
                op_step();
                break;
            case 7:
            case 8:
                op_commit();
                break;
            case 9:
                op_source();
                break;
            case 10:
                op_both();
                break;
            case 11:
                if (!dirty && queue.empty() && setters.size() < 4)
                    make_setter();
                else
                    op_drop();
                break;
            }
            check();
        }
        // in the end everything settles on what the source shows
        while (src.queued && !queue.empty()) {
            op_step();
            check();
        }
        op_commit();
        check();
        op_source();
        while (src.queued && !queue.empty())
            op_step();
        op_commit();
        check();
        for (auto& s : setters)
            if (!same(s->shown, viewed_value(published)))
                c.fail("a setter cursor stays diverged from its source");
    }
};

template <typename V>
void run_world(Case& c)
{
    world<V> w{c};
    w.run();
    c.nontrivial(w.writes >= 2 && (w.settled || w.altered));
    c.label("automatic setter cursors",
            std::any_of(w.setters.begin(), w.setters.end(), [](auto& s) {
                return s->automatic;
            }));
    c.label("a setter cursor of a setter cursor", w.chained > 0);
    c.label("writes composed on an uncommitted write", w.composed > 0);
    c.label("settled on another value than the one written", w.settled > 0);
    c.label("queued source", w.src.queued);
}

} // namespace

PBT_TARGET(setters, 8,
           "two or more writes, and a setter function altered or ignored one "
           "or a cursor settled on a value that was not the one written")
{
    run_world<val>(c);
}

PBT_TARGET(setters_without_equality, 3,
           "two or more writes, and a setter function altered or ignored one "
           "or a cursor settled on a value that was not the one written")
{
    run_world<raw>(c);
}
