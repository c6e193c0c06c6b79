#include <cassert>
#include "c27_make.hpp"

namespace c27 {
using namespace lager;

std::vector<config> configs_d()
{
    return {
        CONVERTED("reducer, deps 1, deps 2, futures, converted to none", NO_TAG, false, true, false, true, 1, 2, 2, none_t, none_t,
               with_reducer(reducer<all_t>{}), deps_1(e, v), deps_2(v), with_futures),
        CONVERTED("deps 2, deps 1, reducer, converted to two", TRANS_TAG, true, false, false, true, 1, 1, 2, none_t, two_t,
               deps_2(v), deps_1(e, v), with_reducer(reducer<one_t>{})),
        CONVERTED("reducer, deps 1, thunk, futures, converted to none", NO_TAG, false, true, true, true, 1, 1, 0, one_t, none_t,
               with_reducer(reducer<one_t>{}), deps_1(e, v), with_thunk(), with_futures),
    };
}
} // namespace c27
