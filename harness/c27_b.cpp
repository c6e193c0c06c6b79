#include <cassert>
#include "c27_make.hpp"

namespace c27 {
using namespace lager;

std::vector<config> configs_b()
{
    return {
        CONFIG("deps 1, reducer, futures", NO_TAG, false, true, false, true, 1, 1, 0, none_t,
               deps_1(e, v), with_reducer(reducer<one_t>{}), with_futures),
        CONFIG("reducer, deps 1, deps 2", AUTO_TAG, false, false, false, true, 1, 2, 2, none_t,
               with_reducer(reducer<all_t>{}), deps_1(e, v), deps_2(v)),
        CONFIG("deps 2, deps 1, futures, reducer", TRANS_TAG, true, true, false, true, 1, 1, 2, none_t,
               deps_2(v), deps_1(e, v), with_futures, with_reducer(reducer<all_t>{})),
        CONFIG("transactional tag, reducer, deps 2", NO_TAG, true, false, false, true, 0, 2, 2, none_t,
               with_tags<transactional_tag>, with_reducer(reducer<two_t>{}), deps_2(v)),
        CONFIG("replaced reducer, futures, tags", NO_TAG, false, true, false, true, 0, 0, 0, none_t,
               with_reducer(wrong_reducer{}), with_futures, with_reducer(reducer<none_t>{}),
               with_tags<user_tag, transactional_tag*>),
    };
}
} // namespace c27
