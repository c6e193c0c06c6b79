// C26: several sensors that sample the same places, through functions without
// state: each is on its own all the same
#include <cassert>

#include <lager/commit.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/watch.hpp>

#include <functional>
#include <memory>
#include <vector>

#include "pbt.hpp"

using pbt::Case;

namespace {

int places[2];

template <int N>
int read()
{
    return places[N];
}
template <int N>
struct reading
{
    int operator()() const { return places[N]; }
};
auto read_lambda = [] { return places[0]; };

struct one
{
    lager::sensor<int> s;
    lager::reader<int> plus;
    int place, now;
    std::vector<int> seen, want;
};

lager::sensor<int> make(int kind)
{
    switch (kind) {
    case 0:
        return lager::make_sensor(&read<0>);
    case 1:
        return lager::make_sensor(&read<1>);
    case 2:
        return lager::make_sensor(reading<0>{});
    case 3:
        return lager::make_sensor(reading<1>{});
    case 4:
        return lager::make_sensor(read_lambda);
    case 5:
        return lager::make_sensor([] { return places[1]; });
    case 6:
        return lager::sensor<int>{read<0>};
    default:
        return lager::sensor<int>{reading<1>{}};
    }
}

} // namespace

PBT_TARGET(same_functions, 2, "two sensors of a place that show different values")
{
    auto all    = std::vector<std::unique_ptr<one>>{};
    auto differ = 0, told = 0;
    auto add    = [&](int k) {
        auto place = k == 0 || k == 2 || k == 4 || k == 6 ? 0 : 1;
        c.log("sensor of kind ", k);
        auto s = make(k);
        auto o = std::make_unique<one>(one{
            s, s.map([k](int x) { return x + k; }), place, places[place], {}, {}});
        P_EQ(o->plus.get(), o->now + k);
        auto p = o.get();
        o->s.watch([p](int v) { p->seen.push_back(v); });
        all.push_back(std::move(o));
    };
    auto sampled = [&](one& o) {
        if (o.now != places[o.place]) {
            o.now = places[o.place];
            o.want.push_back(o.now);
            ++told;
        }
    };
    places[0] = places[1] = 0;
    for (int n = 0; n < 40 && c.more(14); ++n) {
        switch (c.below(6)) {
        case 0:
            add(c.small(8));
            break;
        case 1:
        case 2: {
            auto i    = c.below(2);
            places[i] = c.small(4);
            c.log("place ", i, " is ", places[i]);
            break;
        }
        case 3:
            if (all.size() > 2 && c.flip()) {
                auto i = c.below(all.size());
                c.log("drop ", i);
                all.erase(all.begin() + i);
            }
            break;
        default:
            if (all.empty())
                break;
            auto i = c.below(all.size()), j = c.below(all.size());
            if (i == j || c.flip()) {
                c.log("commit ", i);
                lager::commit(all[i]->s);
                sampled(*all[i]);
            } else {
                c.log("commit ", i, " and ", j);
                lager::commit(all[i]->s, all[j]->s);
                sampled(*all[i]);
                sampled(*all[j]);
            }
        }
        for (auto& o : all) {
            P_EQ(o->s.get(), o->now);
            P_CHECK(o->seen == o->want, "what watchers were told");
            for (auto& x : all)
                differ += x->place == o->place && x->now != o->now;
        }
    }
    c.nontrivial(differ && told);
}
