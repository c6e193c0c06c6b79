#pragma once
#include "c27.hpp"

namespace c27 {

using none_t = lager::deps<>;
using all_t  = lager::deps<lager::dep::ref<env>, da, db, dc>;
using one_t  = lager::deps<lager::dep::ref<env>, da, db>;
using two_t  = lager::deps<db, dc>;

inline auto deps_1(env& e, const dep_values& v)
{
    return lager::with_deps(std::ref(e), da{v.a1}, db{v.b1});
}
inline auto deps_2(const dep_values& v)
{
    return lager::with_deps(db{v.b2}, dc{v.c2});
}

struct user_tag
{};

// ENH: the enhancers, in terms of e and v
#define CONFIG(NAME, TAG, TRANS, FUT, THUNK, EFF, A, B, C, TDEPS, ...)         \
    config                                                                     \
    {                                                                          \
        NAME, TRANS, FUT, THUNK, EFF, A, B, C,                                 \
            [](env& e, const dep_values& v) -> std::unique_ptr<app> {          \
                (void) v;                                                      \
                return hold<TDEPS, THUNK>(                                     \
                    e,                                                         \
                    lager::make_store<action TAG>(                             \
                        model{}, make_loop(e), __VA_ARGS__));                  \
            }                                                                  \
    }

// the same, converted to a store of fewer dependencies
#define CONVERTED(NAME, TAG, TRANS, FUT, THUNK, EFF, A, B, C, TDEPS, FEWER, ...) \
    config                                                                     \
    {                                                                          \
        NAME, TRANS, FUT, THUNK, EFF, A, B, C,                                 \
            [](env& e, const dep_values& v) -> std::unique_ptr<app> {          \
                auto s = lager::make_store<action TAG>(                        \
                    model{}, make_loop(e), __VA_ARGS__);                       \
                using store_t = decltype(s);                                   \
                using fewer_t = lager::                                        \
                    store<typename store_t::action_t, model, FEWER>;           \
                return hold<TDEPS, THUNK>(e, fewer_t{std::move(s)});           \
            }                                                                  \
    }
#define NO_TAG
#define AUTO_TAG , lager::automatic_tag
#define TRANS_TAG , lager::transactional_tag

} // namespace c27
