// C31: built without exceptions, keys of every integer type.  The whole check
// is compiled with LAGER_NO_EXCEPTIONS: nothing may throw out of the library.
#include <cassert>
#include "c11.hpp"

#include <lager/cursor.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>
#include <lager/commit.hpp>
#include <deque>

#ifndef LAGER_NO_EXCEPTIONS
#error "this check is about builds without exceptions"
#endif

using pbt::Case;
using namespace lt;

#define RULE "the part set differs from the part viewed"

template <typename W, typename K>
static void one(Case& c, K k)
{
    using P = typename access_<W>::P;
    switch (c.below(4)) {
    case 0:
        return check_partial(c, L::at(k), ref_at<W>(k));
    case 1:
        return check_lens(c, L::at_or(k), ref_at_or<W>(k, P{}), false);
    case 2:
        return check_partial(
            c, L::with_opt(L::at(k)), ref_bind_opt(ref_at<W>(k)));
    default:
        auto def = P{};
        gen(c, def);
        return check_lens(c, L::at_or(k, def), ref_at_or<W>(k, def), false);
    }
}

template <typename K>
static void sequences_by(Case& c)
{
    long long i = c.chance(1, 3) ? c.integer() : c.small(4);
    // as wide as the key, near a bound when cut short
    if (c.chance(1, 6))
        i += 1ll << (8 * (1 + c.below(7)));
    auto k = static_cast<K>(c.chance(1, 4) ? -i : i);
    c.log("key ", +k, " of ", sizeof(K), " bytes");
    switch (c.below(4)) {
    case 0:
        return one<std::vector<In>>(c, k);
    case 1:
        return one<immer::vector<In>>(c, k);
    case 2:
        return one<immer::flex_vector<std::string>>(c, k);
    default:
        return one<std::array<In, 2>>(c, k);
    }
}

PBT_TARGET(key_types, 4, RULE)
{
    switch (c.below(6)) {
    case 0:
        return sequences_by<signed char>(c);
    case 1:
        return sequences_by<unsigned char>(c);
    case 2:
        return sequences_by<short>(c);
    case 3:
        return sequences_by<int>(c);
    case 4:
        return sequences_by<long long>(c);
    default:
        return sequences_by<std::size_t>(c);
    }
}

// Readers and cursors on an element that comes and goes
PBT_TARGET(elements_over_time, 4, "the element both appeared and disappeared")
{
    using W = std::vector<In>;
    using M = std::map<int, In>;
    auto k   = gen_index(c);
    auto mk_ = gen_key(c);
    auto w   = W{};
    auto m   = M{};
    auto def = In{};
    gen(c, w);
    gen(c, m);
    gen(c, def);
    auto wr = ref_at<W>(k);
    auto mr = ref_at<M>(mk_);
    auto wo = ref_at_or<W>(k, def);
    lager::state<W> sw{w};
    lager::state<M> sm{m};
    lager::cursor<opt<In>> cw = sw.zoom(L::at(k));
    lager::cursor<opt<In>> cm = sm[mk_];
    lager::cursor<In> co      = sw.zoom(L::at_or(k, def));
    auto seen = std::vector<opt<In>>{}, want = seen;
    cm.watch([&](const opt<In>& x) { seen.push_back(x); });
    bool had = false, lost = false;
    int n = 0;
    while (n++ < 8 && c.more(5)) {
        auto pw = w;
        auto pm = m;
        auto p  = opt<In>{};
        auto q  = In{};
        gen(c, p);
        gen(c, q);
        switch (c.below(5)) {
        case 0:
            gen(c, pw);
            c.log("set the sequence to ", str(pw));
            sw.set(pw);
            break;
        case 1:
            gen(c, pm);
            c.log("set the map to ", str(pm));
            sm.set(pm);
            break;
        case 2:
            c.log("set the element to ", str(p));
            cw.set(p);
            pw = wr.put(w, p);
            break;
        case 3:
            c.log("set the mapped element to ", str(p));
            cm.set(p);
            pm = mr.put(m, p);
            break;
        default:
            c.log("set the element with a default to ", str(q));
            co.set(q);
            pw = wo.put(w, q);
        }
        lager::commit(sw, sm);
        if (!(mr.get(pm) == mr.get(m)))
            want.push_back(mr.get(pm));
        lost = lost || (wr.get(w) && !wr.get(pw)) || (mr.get(m) && !mr.get(pm));
        had  = had || (!wr.get(w) && wr.get(pw)) || (!mr.get(m) && mr.get(pm));
        w    = pw;
        m    = pm;
        if (!(sw.get() == w))
            c.fail("the sequence is " + str(sw.get()) + ", expected " + str(w));
        if (!(sm.get() == m))
            c.fail("the map is " + str(sm.get()) + ", expected " + str(m));
        if (!(cw.get() == wr.get(w)))
            c.fail("the element is " + str(cw.get()) + ", expected " +
                   str(wr.get(w)));
        if (!(cm.get() == mr.get(m)))
            c.fail("the mapped element is " + str(cm.get()) + ", expected " +
                   str(mr.get(m)));
        if (!(co.get() == wo.get(w)))
            c.fail("the element with a default is " + str(co.get()) +
                   ", expected " + str(wo.get(w)));
        if (!(seen == want))
            c.fail("the mapped element was notified " +
                   std::to_string(seen.size()) + " times, expected " +
                   std::to_string(want.size()));
    }
    c.nontrivial(had && lost);
}
