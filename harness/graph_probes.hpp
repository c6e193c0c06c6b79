// Reproductions of the known findings in the propagation of changes.
#pragma once

#include <lager/commit.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

namespace graph_probes {

// a commit of a change that cancels out over two paths still notifies
inline bool spurious_notification()
{
    lager::state<int> a{0};
    auto x = lager::reader<int>{a.map([](int v) { return v + 5; })};
    auto y = lager::reader<int>{a.map([](int v) { return -v; })};
    auto s = lager::reader<int>{
        lager::with(x, y).map([](int p, int q) { return p + q; })};
    int calls = 0;
    lager::watch(s, [&](int) { ++calls; });
    a.set(1);
    lager::commit(a);
    return s.get() == 5 && calls > 0;
}

// a filter behind a merge keeps a value that its source never published
inline bool filter_keeps_transient()
{
    lager::state<int> a{0};
    auto x = lager::reader<int>{a.map([](int v) { return v + 5; })};
    auto y = lager::reader<int>{a.map([](int v) { return -v; })};
    auto s = lager::reader<int>{
        lager::with(x, y).map([](int p, int q) { return p + q; })};
    auto f =
        lager::reader<int>{s.filter([](int v) { return v % 2 == 0; })};
    a.set(1);
    lager::commit(a);
    return s.get() == 5 && f.get() == 6;
}

// committing one root publishes another root's pending write through readers
// that merge both
inline bool partial_commit_leaks()
{
    lager::state<int> a{0}, b{0};
    auto s = lager::reader<int>{
        lager::with(a, b).map([](int p, int q) { return p * 10 + q; })};
    a.set(1);
    b.set(2);
    lager::commit(a);
    return b.get() == 0 && s.get() == 12;
}

inline bool partial_commit_leaks_to_watchers()
{
    lager::state<int> a{0}, b{0};
    auto s = lager::reader<int>{
        lager::with(a, b).map([](int p, int q) { return p * 10 + q; })};
    auto seen = std::make_pair(0, 0);
    lager::watch(a, [&](int) { seen = {s.get(), b.get()}; });
    a.set(1);
    b.set(2);
    lager::commit(a);
    return seen == std::make_pair(12, 0);
}

} // namespace graph_probes
