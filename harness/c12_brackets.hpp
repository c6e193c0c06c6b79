// C12: bracket access, against plain references.
#pragma once
#include <cassert>
#include "c11.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lens.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

using namespace lt;

namespace {

using VI = std::vector<In>;
using V3 = std::variant<In, std::string, int>;

// `access` applies brackets to whatever it is given
template <typename P, typename W, typename Access>
void brackets(Case& c, const std::string& what, Access access, ref<W, P> r)
{
    auto w = W{};
    gen(c, w);
    c.log(what, " of ", str(w));
    lager::state<W> s{w};
    auto cs  = lager::cursor<W>{s};
    auto rs  = lager::reader<W>{s};
    lager::cursor<P> cur = c.below(2) ? access(cs) : access(lager::cursor<W>{cs});
    lager::cursor<P> direct   = access(s);
    lager::cursor<P> withed   = access(lager::with(cs));
    lager::reader<P> rd       = access(rs);
    lager::reader<P> rd_again = access(lager::cursor<W>{cs});
    lager::writer<P> wr       = access(lager::writer<W>{cs});
    auto pending  = w;
    auto notified = std::vector<P>{};
    auto expected = std::vector<P>{};
    cur.watch([&](const P& p) { notified.push_back(p); });
    auto changed = false, wrote = false;
    auto check   = [&] {
        auto want = r.get(w);
        auto one  = [&](const char* n, const P& got) {
            if (!(got == want))
                c.fail(what + " through a " + n + ": read " + str(got) +
                       ", expected " + str(want));
        };
        one("cursor", cur.get());
        one("state", direct.get());
        one("with expression", withed.get());
        one("reader", rd.get());
        one("reader of a cursor", rd_again.get());
        if (!(s.get() == w))
            c.fail(what + ": the root is " + str(s.get()) + ", expected " +
                   str(w));
    };
    check();
    int writes = 0;
    while (writes < 8 && c.more(5)) {
        auto p = P{};
        switch (c.below(8)) {
        case 0: {
            gen(c, pending);
            c.log("set the root to ", str(pending));
            s.set(pending);
            break;
        }
        case 1:
            gen(c, p);
            c.log("set ", str(p));
            cur.set(p);
            pending = r.put(pending, p);
            wrote   = true;
            break;
        case 2:
            gen(c, p);
            c.log("set through the state ", str(p));
            direct.set(p);
            pending = r.put(pending, p);
            wrote   = true;
            break;
        case 3:
            gen(c, p);
            c.log("set through with() ", str(p));
            withed.set(p);
            pending = r.put(pending, p);
            wrote   = true;
            break;
        case 4:
            gen(c, p);
            c.log("set through a writer ", str(p));
            wr.set(p);
            pending = r.put(pending, p);
            wrote   = true;
            break;
        case 5: {
            gen(c, p);
            c.log("update to ", str(p));
            auto seen = P{};
            cur.update([&](P x) {
                seen = x;
                return p;
            });
            if (!(seen == r.get(pending)))
                c.fail(what + ": update was given " + str(seen));
            pending = r.put(pending, p);
            wrote   = true;
            break;
        }
        default: {
            c.log("commit");
            auto before = r.get(w);
            lager::commit(s);
            w = pending;
            check();
            auto after = r.get(w);
            if (!(before == after)) {
                changed = true;
                if (notified.empty() || !(notified.back() == after))
                    c.fail(what + ": change to " + str(after) +
                           " not notified");
            }
            notified.clear();
        }
        }
        ++writes;
    }
    lager::commit(s);
    w = pending;
    check();
    c.label("the part changed", changed);
    c.nontrivial(wrote);
}

template <typename W, typename P>
ref<opt<W>, opt<P>> lift(ref<W, P> r)
{
    return ref_map_opt(r);
}
template <typename W, typename P>
ref<opt<W>, opt<P>> bind(ref<W, opt<P>> r)
{
    return ref_bind_opt(r);
}

#define RULE "something was written through the brackets"

} // namespace

