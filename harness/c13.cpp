// C13: chains of steps, as one expression and one handle at a time.
#include "chains.hpp"

using namespace ch;

namespace {

template <typename TagT>
struct roots
{
    lager::state<int, TagT> i;
    lager::state<P, TagT> p;
};

template <typename TagT>
void run(Case& c)
{
    world w{c};
    constexpr bool automatic = std::is_same_v<TagT, lager::automatic_tag>;
    auto i0 = gen(c, 0);
    auto p0 = gen(c, P{});
    roots<TagT> a{lager::state<int, TagT>{i0}, lager::state<P, TagT>{p0}};
    roots<TagT> b{lager::state<int, TagT>{i0}, lager::state<P, TagT>{p0}};
    c.log(automatic ? "automatic" : "transactional", " states ", str(i0), " ",
          str(p0));
    w.name = "state";
    finish<int, true>(w, a.i, b.i);
    w.name = "state";
    finish<P, true>(w, a.p, b.p);
    w.ri.emplace_back(a.i, b.i);
    w.rp.emplace_back(a.p, b.p);

    bool pending = false;
    int changes = 0, writes = 0, built = 0, cursor_writes = 0;
    auto settle = [](std::vector<std::string>& v, const std::string& from) {
        auto last = &from;
        auto out  = std::vector<std::string>{};
        for (auto& x : v)
            if (x != *last) {
                out.push_back(x);
                last = &x;
            }
        v = out;
    };
    int unpublished = 0;
    auto compare = [&] {
        for (auto& e : w.ends)
            e->show();
        for (std::size_t i = 0; i < w.ends.size(); ++i) {
            auto x = w.log_a[i], y = w.log_b[i];
            // a value that several writes bring back before they are
            // published may or may not be notified
            if (unpublished > 1) {
                settle(x, w.values[i]);
                settle(y, w.values[i]);
            }
            if (x != y)
                c.fail("h" + str(static_cast<int>(i)) +
                       ": notified as one expression " + pbt::show(x) +
                       ", step by step " + pbt::show(y));
            w.log_a[i].clear();
            w.log_b[i].clear();
            w.values[i] = w.ends[i]->show();
        }
        unpublished = 0;
    };
    auto commit = [&] {
        if (c.chance(1, 4)) {
            c.log("commit in parts");
            lager::commit(a.p);
            lager::commit(b.p);
            lager::commit(a.i);
            lager::commit(b.i);
        } else {
            c.log("commit");
            lager::commit(a.i, a.p);
            lager::commit(b.i, b.p);
        }
        pending = false;
        ++changes;
        compare();
    };
    auto some = [&](auto& v) { return v[c.below(v.size())]; };
    while (built < 6 && writes < 30 && c.more(10)) {
        switch (c.below(4)) {
        case 0:
        case 1: {
            if (pending)
                commit();
            w.name = "";
            w.skipped = false;
            switch (c.below(10)) {
            case 0: {
                auto [x, y] = some(w.ci);
                part_ci(w, x, y);
                break;
            }
            case 1: {
                auto [x, y] = some(w.cp);
                part_cp(w, x, y);
                break;
            }
            case 2: {
                auto [x, y] = some(w.ri);
                part_ri(w, x, y);
                break;
            }
            case 3: {
                auto [x, y] = some(w.rp);
                part_rp(w, x, y);
                break;
            }
            case 4: {
                auto [x, y] = some(w.ci);
                part_deep_ci(w, x, y);
                break;
            }
            case 5: {
                auto [x, y] = some(w.cp);
                part_deep_cp(w, x, y);
                break;
            }
            case 6: {
                auto [x, y] = some(w.ri);
                part_deep_ri(w, x, y);
                break;
            }
            case 7: {
                auto [x, y] = some(w.rp);
                part_deep_rp(w, x, y);
                break;
            }
            case 8: {
                auto [x, y] = some(w.ci);
                auto [u, v] = some(w.cp);
                part_two_c(w, x, u, y, v);
                break;
            }
            default: {
                auto [x, y] = some(w.ri);
                auto [u, v] = some(w.rp);
                part_two_r(w, x, u, y, v);
            }
            }
            ++built;
            compare();
            break;
        }
        case 2: {
            auto k  = c.below(w.ends.size());
            if (!w.ends[k]->writable())
                k = c.below(2);
            auto op = static_cast<int>(c.below(7));
            auto s  = w.ends[k]->write(c, op);
            c.log("h", k, " ", s);
            ++writes;
            ++unpublished;
            cursor_writes += k > 1;
            if (automatic) {
                ++changes;
                compare();
            } else
                pending = true;
            break;
        }
        default:
            if (!automatic)
                commit();
        }
    }
    if (pending)
        commit();
    P_EQ(a.i.get(), b.i.get());
    P_CHECK(a.p.get() == b.p.get());
    c.label("3+ steps in an expression", w.longest >= 3);
    c.label("written through a chain", cursor_writes > 0);
    c.label("automatic", automatic);
    c.nontrivial(built > 0 && w.longest >= 2 && changes > 0 && writes > 0);
}

} // namespace

PBT_TARGET(transactional_chains,
           4,
           "an expression of at least two steps was built, and its inputs "
           "were written and published")
{
    run<lager::transactional_tag>(c);
}

PBT_TARGET(automatic_chains,
           2,
           "an expression of at least two steps was built, and its inputs "
           "were written and published")
{
    run<lager::automatic_tag>(c);
}
