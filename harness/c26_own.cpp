// C26: sensors whose functions have state of their own, given in every form
#include <cassert>

#include "c26.hpp"

#include <lager/commit.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/watch.hpp>

#include <functional>
#include <memory>
#include <vector>

#include "pbt.hpp"

using pbt::Case;

namespace {

// what is sensed, one sample per call, and how many were taken
struct tape
{
    std::vector<int> samples;
    std::size_t pos = 0;
    int next() { return pos < samples.size() ? samples[pos++] : int(pos++); }
};

struct player
{
    tape t;
    int* calls;
    int operator()()
    {
        ++*calls;
        return t.next();
    }
};

struct moved_player
{
    std::unique_ptr<tape> t;
    int* calls;
    int operator()()
    {
        ++*calls;
        return t->next();
    }
};

template <typename Make>
void play(Case& c, Make make)
{
    auto tp = tape{};
    auto n  = 2 + c.below(8);
    for (auto i = 0u; i < n; ++i)
        tp.samples.push_back(c.small(3));
    int calls   = 0;
    auto model  = tp;
    auto s      = make(tp, &calls);
    auto now    = model.next();
    auto wanted = 1;
    P_EQ(calls, wanted);
    auto first = lager::reader<int>{s};
    auto twice = lager::reader<int>{s.map([](int x) { return 2 * x; })};
    auto seen = std::vector<int>{}, want = seen;
    first.watch([&](int x) { seen.push_back(x); });
    auto changes = 0, repeats = 0;
    for (int k = 0; k < 12 && c.more(6); ++k) {
        if (c.chance(1, 8)) {
            c.log("moved");
            auto t = std::move(s);
            s      = std::move(t);
        } else {
            c.log("commit");
            lager::commit(s);
            ++wanted;
            auto v = model.next();
            if (v != now) {
                want.push_back(v);
                ++changes;
            } else
                ++repeats;
            now = v;
        }
        P_EQ(calls, wanted);
        P_EQ(s.get(), now);
        P_EQ(first.get(), now);
        P_EQ(twice.get(), 2 * now);
        P_CHECK(seen == want, "notified " << seen.size() << " times, expected "
                    << want.size());
    }
    c.nontrivial(changes && repeats);
}

} // namespace

PBT_TARGET(own_state, 2, "some samples changed and some repeated the last one")
{
    switch (c.below(6)) {
    case 0:
        return play(c, [](const tape& t, int* n) {
            return lager::make_sensor(player{t, n});
        });
    case 1:
        return play(c, [](const tape& t, int* n) {
            return lager::make_sensor([t = tape{t}, n]() mutable {
                ++*n;
                return t.next();
            });
        });
    case 2:
        return play(c, [](const tape& t, int* n) {
            return lager::sensor<int>{player{t, n}};
        });
    case 3:
        // the sensor plays a copy of its own
        return play(c, [&](const tape& t, int* n) {
            auto p = player{t, n};
            auto s = lager::make_sensor(p);
            P_EQ(p.t.pos, std::size_t{0});
            return s;
        });
    case 4:
        return play(c, [](const tape& t, int* n) {
            return lager::sensor<int>{std::function<int()>{player{t, n}}};
        });
    default:
        return play(c, [](const tape& t, int* n) {
            return lager::make_sensor(
                moved_player{std::make_unique<tape>(t), n});
        });
    }
}
