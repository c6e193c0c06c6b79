// C26: sensors, constants and states committed together.
#pragma once
#include <cassert>

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>

#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <tuple>
#include <utility>

namespace c26 {

struct pt
{
    int a = 0;
    std::string b;
    friend bool operator==(const pt& x, const pt& y)
    {
        return x.a == y.a && x.b == y.b;
    }
};

// without equality: every sample counts as a change
struct raw
{
    int v = 0;
};

struct add
{
    int n;
};

enum root : int
{
    state_a,
    state_b,
    auto_u,
    sensor_s,
    sensor_p,
    sensor_n,
    sensor_m, // reads what state_a shows
    const_k,
    store_t,
    n_roots
};

inline const char* const root_names[] = {"state a",
                                         "state b",
                                         "automatic state u",
                                         "sensor s",
                                         "struct sensor p",
                                         "sensor without equality n",
                                         "sensor m of state a",
                                         "constant k",
                                         "store t"};

struct put_reducer
{
    int operator()(int m, add a) const { return m + a.n; }
};

using store_type =
    decltype(lager::make_store<add, lager::transactional_tag>(
        0,
        lager::with_manual_event_loop{},
        lager::with_reducer(put_reducer{})));

struct roots
{
    lager::state<int> a, b;
    lager::state<int, lager::automatic_tag> u;
    lager::sensor<int> s;
    lager::sensor<pt> p;
    lager::sensor<raw> n;
    lager::sensor<int> m;
    lager::constant<int> k;
    store_type t;
};

template <int I>
auto& get(roots& r)
{
    if constexpr (I == state_a)
        return r.a;
    else if constexpr (I == state_b)
        return r.b;
    else if constexpr (I == auto_u)
        return r.u;
    else if constexpr (I == sensor_s)
        return r.s;
    else if constexpr (I == sensor_p)
        return r.p;
    else if constexpr (I == sensor_n)
        return r.n;
    else if constexpr (I == sensor_m)
        return r.m;
    else if constexpr (I == const_k)
        return r.k;
    else
        return r.t;
}

// commits the roots of the set, forwards or backwards; split to compile in
// parallel
template <int Part>
void commit_part(roots& r, unsigned set, bool backwards);

constexpr int n_parts = 4;

inline void commit_set(roots& r, unsigned set, bool backwards)
{
    switch (set % n_parts) {
    case 0:
        return commit_part<0>(r, set, backwards);
    case 1:
        return commit_part<1>(r, set, backwards);
    case 2:
        return commit_part<2>(r, set, backwards);
    default:
        return commit_part<3>(r, set, backwards);
    }
}

} // namespace c26
