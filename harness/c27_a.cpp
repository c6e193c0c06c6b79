#include <cassert>
#include "c27_make.hpp"

namespace c27 {
using namespace lager;

std::vector<config> configs_a()
{
    return {
        CONFIG("reducer", AUTO_TAG, false, false, false, true, 0, 0, 0, none_t,
               with_reducer(reducer<none_t>{})),
        CONFIG("reducer, futures", NO_TAG, false, true, false, true, 0, 0, 0, none_t,
               with_reducer(reducer<none_t>{}), with_futures),
        CONFIG("futures, reducer, tags", NO_TAG, false, true, false, true, 0, 0, 0, none_t,
               with_futures, with_reducer(reducer<none_t>{}), with_tags<user_tag>),
        CONFIG("reducer, thunk", AUTO_TAG, false, false, true, true, 0, 0, 0, none_t,
               with_reducer(reducer<none_t>{}), with_thunk()),
        CONFIG("plain reducer, thunk, futures", NO_TAG, false, true, true, false, 0, 0, 0, none_t,
               with_reducer(plain_reducer{}), with_thunk(), with_futures),
        CONFIG("default reducer, futures, thunk", TRANS_TAG, true, true, true, false, 0, 0, 0, none_t,
               with_futures, with_thunk()),
    };
}
} // namespace c27
