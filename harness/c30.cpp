// C30: Qt properties against the published values of what they are made from
#include <pbt.hpp>

#include "c30_objects.hpp"

#include <lager/commit.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/lenses/attr.hpp>

#include <QMetaProperty>
#include <QVariant>

#include <memory>

using namespace c30;
using pbt::Case;

namespace {

const char* names[] = {"num", "text", "flag", "real", "where", "half"};
constexpr int fields = 6;

QVariant field_of(const st& s, int f)
{
    switch (f) {
    case 0:
        return s.num;
    case 1:
        return s.text;
    case 2:
        return s.flag;
    case 3:
        return s.real;
    case 4:
        return QVariant::fromValue(s.where);
    default:
        return s.num / 2;
    }
}
bool same(const QVariant& a, const QVariant& b)
{
    if (a.userType() != b.userType())
        return false;
    if (a.userType() == qMetaTypeId<point>())
        return a.value<point>() == b.value<point>();
    return a == b;
}
bool same(const st& a, const st& b, int f)
{
    return same(field_of(a, f), field_of(b, f));
}
bool same_state(const st& a, const st& b)
{
    for (int f = 0; f < fields; ++f)
        if (!same(a, b, f))
            return false;
    return true;
}
std::string text(const QVariant& v)
{
    if (v.userType() == qMetaTypeId<point>())
        return "(" + std::to_string(v.value<point>().x) + "," +
               std::to_string(v.value<point>().y) + ")";
    return v.toString().toStdString();
}
std::string text(const st& s)
{
    auto r = std::string{};
    for (int f = 0; f < 5; ++f)
        r += (f ? " " : "") + text(field_of(s, f));
    return r;
}

st change(Case& c, st s, int f)
{
    static const char* words[] = {"", "a", "b", "ab", "\xc3\xa9"};
    switch (f) {
    case 0:
        s.num = c.small(5);
        break;
    case 1:
        s.text = QString::fromUtf8(words[c.small(5)]);
        break;
    case 2:
        s.flag = c.flip();
        break;
    case 3:
        s.real = c.small(4) * .5;
        break;
    default:
        s.where = point{static_cast<int>(c.small(3)), static_cast<int>(c.small(2))};
    }
    return s;
}

struct heard
{
    int field;
    QVariant arg, read;
};

// an object and what its signals said
struct watched
{
    std::unique_ptr<QObject> obj;
    int id;
    QString title;
    bool writable;
    bool bound = false;
    std::vector<heard> log;
    std::function<void(int)> react;

    template <typename Obj>
    void listen(Obj* o)
    {
        auto hear = [this, o](int f, QVariant v) {
            log.push_back({f, v, o->property(names[f])});
            if (react)
                react(f);
        };
        QObject::connect(o, &Obj::numChanged, [=](int v) { hear(0, v); });
        QObject::connect(
            o, &Obj::textChanged, [=](const QString& v) { hear(1, v); });
        QObject::connect(o, &Obj::flagChanged, [=](bool v) { hear(2, v); });
        QObject::connect(o, &Obj::realChanged, [=](double v) { hear(3, v); });
        QObject::connect(o, &Obj::whereChanged, [=](const point& v) {
            hear(4, QVariant::fromValue(v));
        });
        QObject::connect(o, &Obj::halfChanged, [=](int v) { hear(5, v); });
    }
};

void check_meta(Case& c, const watched& w)
{
    auto m = w.obj->metaObject();
    for (int f = 0; f < fields; ++f) {
        auto i = m->indexOfProperty(names[f]);
        P_CHECK(i >= 0, "no property " << names[f]);
        auto p = m->property(i);
        P_CHECK(p.isReadable() && p.hasNotifySignal() && !p.isConstant(),
                "property " << names[f]);
        P_EQ(p.isWritable(), w.writable && f != 5, "property " << names[f]);
        P_EQ(p.notifySignal().name().toStdString(),
             std::string{names[f]} + "Changed");
    }
    for (auto n : {"id", "title"}) {
        auto p = m->property(m->indexOfProperty(n));
        P_CHECK(p.isConstant() && !p.isWritable() && !p.hasNotifySignal(),
                "constant property " << n);
    }
}

void check_values(Case& c, const watched& w, const st& s)
{
    for (int f = 0; f < fields; ++f) {
        auto v = w.obj->property(names[f]);
        P_CHECK(same(v, field_of(s, f)),
                "object " << w.id << ": " << names[f] << " is " << text(v)
                          << " instead of " << text(field_of(s, f)));
    }
    P_EQ(w.obj->property("id").toInt(), w.id);
    P_CHECK(w.obj->property("title").toString() == w.title, "constant title");
}

// the signals of a change from one published value to another
// (`touched`: fields that had other values in between; that a write was taken
// back before its publication may be told)
void check_signals(Case& c,
                   watched& w,
                   const st& from,
                   const st& to,
                   const std::vector<bool>& touched = {})
{
    auto n = std::vector<int>(fields);
    for (auto& h : w.log) {
        ++n[h.field];
        P_CHECK(same(h.arg, field_of(to, h.field)),
                "object " << w.id << ": " << names[h.field] << "Changed("
                          << text(h.arg) << ") for " << text(to));
        P_CHECK(same(h.read, h.arg),
                "object " << w.id << ": " << names[h.field] << " read "
                          << text(h.read) << " in its signal of " << text(h.arg));
    }
    for (int f = 0; f < fields; ++f)
        if (touched.empty() || !touched[f] || !same(from, to, f) || n[f] > 1)
            P_EQ(n[f], same(from, to, f) ? 0 : 1,
                 "object " << w.id << ": times " << names[f] << "Changed from "
                       << text(from) << " to " << text(to));
    w.log.clear();
}

template <typename Root, typename Write, typename Publish>
void history(Case& c,
             Root& root,
             lager::cursor<st>* cursor, // null for read-only roots
             Write write,
             Publish publish,
             bool at_once,
             st initial)
{
    auto cur  = initial; // written
    auto pub  = initial; // published
    auto objs = std::vector<std::unique_ptr<watched>>{};
    auto half = lager::reader<int>{
        lager::reader<st>{root}.map([](const st& s) { return s.num / 2; })};
    auto next = 1, writes = 0, told_n = 0;
    // an object of somewhere else, to which others are bound
    auto other   = lager::make_state(initial, lager::automatic_tag{});
    auto binding = edited{0, "", other, half};
    auto bound   = 0;
    auto touched = std::vector<bool>(fields);
    auto wrote   = [&](st s) {
        for (int f = 0; f < fields; ++f)
            if (!at_once && !same(cur, s, f))
                touched[f] = true;
        cur = s;
    };
    auto settle = [&](st to, bool publication) {
        for (auto& w : objs) {
            told_n += static_cast<int>(w->log.size());
            check_signals(c,
                          *w,
                          pub,
                          to,
                          publication ? touched : std::vector<bool>(fields));
            check_values(c, *w, to);
        }
        pub = to;
        if (publication)
            touched.assign(fields, false);
    };
    auto published = [&] { settle(cur, true); };
    auto make = [&] {
        auto w   = std::make_unique<watched>();
        w->id    = next++;
        w->title = QString::fromStdString("t" + std::to_string(w->id * 7));
        w->writable = cursor && c.flip();
        c.log("new ", w->writable ? "edited " : "shown ", w->id);
        if (w->writable) {
            auto o = std::make_unique<edited>(w->id, w->title, *cursor, half);
            w->listen(o.get());
            if (c.flip()) {
                c.log("bound to the other object");
                ++bound;
                QObject::connect(
                    &binding, &edited::numChanged, o.get(), &edited::setnum);
                QObject::connect(
                    &binding, &edited::textChanged, o.get(), &edited::settext);
                w->bound = true;
            }
            w->obj = std::move(o);
        } else if (cursor && c.flip()) {
            auto o = std::make_unique<shown>(w->id, w->title, *cursor, half);
            w->listen(o.get());
            w->obj = std::move(o);
        } else {
            auto o = std::make_unique<shown>(
                w->id, w->title, lager::reader<st>{root}, half);
            w->listen(o.get());
            w->obj = std::move(o);
        }
        check_meta(c, *w);
        objs.push_back(std::move(w));
    };
    make();
    auto n = 0;
    while (n++ < 25 && c.more(10)) {
        switch (c.small(9)) {
        case 8: {
            auto now = other.get();
            auto f   = c.small(2);
            auto s   = change(c, now, f);
            c.log("the other object: ", names[f], " = ", text(field_of(s, f)));
            auto any = false;
            for (auto& w : objs)
                any = any || w->bound;
            if (any && !same(s, now, f)) {
                auto t = cur;
                f == 0 ? void(t.num = s.num) : void(t.text = s.text);
                wrote(t);
                ++writes;
            }
            binding.setProperty(names[f], field_of(s, f));
            break;
        }
        case 0:
            if (objs.size() < 4) {
                // made from a published state: what is made while a write
                // waits for its publication may show either
                if (!at_once && !same_state(cur, pub)) {
                    c.log("publish");
                    publish();
                    published();
                }
                make();
            }
            break;
        case 1:
            if (objs.size() > 1 && c.chance(1, 2)) {
                auto i = c.below(objs.size());
                c.log("delete ", objs[i]->id);
                objs.erase(objs.begin() + i);
            }
            break;
        case 2: {
            auto s = change(c, cur, c.small(5));
            if (c.flip())
                s = change(c, s, c.small(5));
            wrote(s);
            c.log("write ", text(cur));
            write(cur);
            ++writes;
            break;
        }
        case 3: {
            c.log("publish");
            publish();
            published();
            break;
        }
        case 4:
            if (objs.size()) {
                // constants and readers do not change when written
                auto& w = *objs[c.below(objs.size())];
                c.log("write constants of ", w.id);
                w.obj->setProperty("id", 99);
                w.obj->setProperty("title", "other");
                w.obj->setProperty("half", 99);
                if (!w.writable)
                    w.obj->setProperty("num", 77);
            }
            break;
        default: {
            auto ws = std::vector<watched*>{};
            for (auto& w : objs)
                if (w->writable)
                    ws.push_back(w.get());
            if (ws.empty())
                break;
            auto& w = *ws[c.below(ws.size())];
            auto f  = c.small(5);
            wrote(change(c, cur, f));
            ++writes;
            if (c.flip()) {
                c.log("object ", w.id, ": ", names[f], " = ",
                      text(field_of(cur, f)));
                P_CHECK(w.obj->setProperty(names[f], field_of(cur, f)));
            } else {
                c.log("object ", w.id, ": set", names[f], " ",
                      text(field_of(cur, f)));
                auto& e = static_cast<edited&>(*w.obj);
                switch (f) {
                case 0:
                    e.setnum(cur.num);
                    break;
                case 1:
                    e.settext(cur.text);
                    break;
                case 2:
                    e.setflag(cur.flag);
                    break;
                case 3:
                    e.setreal(cur.real);
                    break;
                default:
                    e.setwhere(cur.where);
                }
            }
        }
        }
        settle(at_once ? cur : pub, false);
    }
    objs.clear();
    write(change(c, cur, 0));
    publish();
    c.nontrivial(writes >= 3 && told_n >= 2);
    c.label("several signals", told_n > 4);
    c.label("bound objects", bound > 0);
}

} // namespace

PBT_TARGET(properties, 3, "three writes and two signals")
{
    auto s0 = change(c, st{}, c.small(5));
    switch (c.small(3)) {
    case 0: {
        c.log("automatic state of ", text(s0));
        auto root   = lager::make_state(s0, lager::automatic_tag{});
        auto cursor = lager::cursor<st>{root};
        history(
            c, root, &cursor, [&](st s) { root.set(s); }, [] {}, true, s0);
        break;
    }
    case 1: {
        c.log("transactional state of ", text(s0));
        auto root   = lager::make_state(s0, lager::transactional_tag{});
        auto cursor = lager::cursor<st>{root};
        history(
            c,
            root,
            &cursor,
            [&](st s) { root.set(s); },
            [&] { lager::commit(root); },
            false,
            s0);
        break;
    }
    default: {
        c.log("store of ", text(s0));
        auto root = lager::make_store<st>(
            s0,
            lager::with_manual_event_loop{},
            lager::with_reducer([](st, st a) { return a; }));
        history(
            c,
            root,
            nullptr,
            [&](st s) { root.dispatch(s); },
            [] {},
            true,
            s0);
    }
    }
}

// Signal handlers that write other properties: in the end every object shows
// the same, and each signal told the value that came after the one before.
PBT_TARGET(bound_properties, 2, "a reaction wrote something")
{
    auto s0 = change(c, st{}, c.small(5));
    c.log("initially ", text(s0));
    auto root   = lager::make_state(s0, lager::automatic_tag{});
    auto cursor = lager::cursor<st>{root};
    auto half   = lager::reader<int>{
        lager::reader<st>{root}.map([](const st& s) { return s.num / 2; })};
    auto ws = std::vector<std::unique_ptr<watched>>{};
    auto k  = 1 + c.small(3);
    for (int i = 0; i < (int) k; ++i) {
        auto w      = std::make_unique<watched>();
        w->id       = i;
        w->writable = true;
        auto o      = std::make_unique<edited>(i, "", cursor, half);
        w->listen(o.get());
        w->obj = std::move(o);
        ws.push_back(std::move(w));
    }
    // when `on` of object `from` changes, `to` gets a value; only to later
    // fields, so that it ends
    struct rule
    {
        int object, on, to, target;
        QVariant value;
    };
    auto rules = std::vector<rule>{};
    while (rules.size() < 4 && c.more(2)) {
        auto on = static_cast<int>(c.small(4));
        auto to = on + 1 + static_cast<int>(c.below(4 - on));
        auto r  = rule{static_cast<int>(c.below(k)),
                      on,
                      to,
                      static_cast<int>(c.below(k)),
                      field_of(change(c, st{}, to), to)};
        c.log("when ", names[on], " of ", r.object, " changes: ", names[to],
              " of ", r.target, " = ", text(r.value));
        rules.push_back(r);
    }
    auto reactions = 0;
    for (auto& w : ws)
        w->react = [&, id = w->id](int f) {
            for (auto& r : rules)
                if (r.object == id && r.on == f) {
                    ++reactions;
                    ws[r.target]->obj->setProperty(names[r.to], r.value);
                }
        };
    auto n   = 0;
    auto pub = s0;
    while (n++ < 10 && c.more(5)) {
        auto f = static_cast<int>(c.small(5));
        auto s = change(c, pub, f);
        c.log(names[f], " = ", text(field_of(s, f)));
        ws[c.below(k)]->obj->setProperty(names[f], field_of(s, f));
        auto now = root.get();
        for (auto& w : ws) {
            check_values(c, *w, now);
            // told once per change, the last one being the value there is
            for (int g = 0; g < fields; ++g) {
                auto last = field_of(pub, g);
                auto told = 0;
                for (auto& h : w->log)
                    if (h.field == g) {
                        ++told;
                        last = h.arg;
                    }
                P_CHECK(same(last, field_of(now, g)),
                        "object " << w->id << ": last " << names[g]
                                  << "Changed told " << text(last)
                                  << " instead of " << text(field_of(now, g)));
                if (!same(pub, now, g))
                    P_CHECK(told > 0, names[g] << " changed without a signal");
                if (rules.empty())
                    P_EQ(told, same(pub, now, g) ? 0 : 1);
            }
            w->log.clear();
        }
        pub = now;
    }
    c.nontrivial(reactions > 0);
    c.label("reactions", reactions > 0);
}
