#pragma once
#include "c26.hpp"

namespace c26 {

template <unsigned Set, int I, bool Backwards, typename... Rs>
void commit_from(roots& r, Rs&... rs)
{
    if constexpr (I == n_roots)
        lager::commit(rs...);
    else if constexpr (Set & (1u << I)) {
        if constexpr (Backwards)
            commit_from<Set, I + 1, Backwards>(r, get<I>(r), rs...);
        else
            commit_from<Set, I + 1, Backwards>(r, rs..., get<I>(r));
    } else
        commit_from<Set, I + 1, Backwards>(r, rs...);
}

using commit_fn = void (*)(roots&);

template <unsigned Set, bool Backwards>
void commit_one(roots& r)
{
    commit_from<Set, 0, Backwards>(r);
}

template <int Part, unsigned... Is>
void commit_table(roots& r,
                  unsigned set,
                  bool backwards,
                  std::integer_sequence<unsigned, Is...>)
{
    static const commit_fn forth[] = {&commit_one<Is * n_parts + Part, false>...};
    static const commit_fn back[]  = {&commit_one<Is * n_parts + Part, true>...};
    if (backwards)
        back[set / n_parts](r);
    else
        forth[set / n_parts](r);
}

template <int Part>
void commit_part(roots& r, unsigned set, bool backwards)
{
    commit_table<Part>(
        r,
        set,
        backwards,
        std::make_integer_sequence<unsigned, (1u << n_roots) / n_parts>{});
}

} // namespace c26
