#include <cassert>
#include "c27_make.hpp"

namespace c27 {
using namespace lager;

std::vector<config> configs_c()
{
    return {
        CONFIG("reducer, deps 1, thunk, futures", NO_TAG, false, true, true, true, 1, 1, 0, one_t,
               with_reducer(reducer<one_t>{}), deps_1(e, v), with_thunk(), with_futures),
        CONFIG("deps 1, deps 2, reducer, thunk", TRANS_TAG, true, false, true, true, 1, 2, 2, all_t,
               deps_1(e, v), deps_2(v), with_reducer(reducer<all_t>{}), with_thunk()),
        CONFIG("futures, deps 2, reducer, tags, thunk, deps 1", NO_TAG, false, true, true, true, 1, 1, 2, two_t,
               with_futures, deps_2(v), with_reducer(reducer<two_t>{}), with_tags<user_tag>,
               with_thunk(), deps_1(e, v)),
        CONFIG("transactional tag, plain reducer, deps 1, thunk, deps 2, futures", NO_TAG, true, true, true, false, 1, 2, 2, one_t,
               with_tags<transactional_tag>, with_reducer(plain_reducer{}), deps_1(e, v),
               with_thunk(), deps_2(v), with_futures),
    };
}
} // namespace c27
