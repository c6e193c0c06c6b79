// Delays around every lock and unlock, so that threads meet in the gaps
// between critical sections.
#include "c17.hpp"

#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>

namespace c17 {

std::atomic<int> delays{0};
std::atomic<unsigned> delay_seed{1};

static void delay()
{
    auto level = delays.load(std::memory_order_relaxed);
    if (level == 0)
        return;
    static thread_local unsigned s = 0;
    if (s == 0)
        s = delay_seed.fetch_add(0x9e3779b9u, std::memory_order_relaxed) | 1;
    s ^= s << 13;
    s ^= s >> 17;
    s ^= s << 5;
    auto r = s >> 8;
    switch (r % 16) {
    case 0:
        sched_yield();
        break;
    case 1:
    case 2:
        if (level > 1)
            spin_for((r >> 4) % 2000);
        break;
    case 3:
        if (level > 2)
            spin_for((r >> 4) % 20000);
        break;
    }
}

} // namespace c17

#if !__SANITIZE_THREAD__
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    using fn_t      = int (*)(pthread_mutex_t*);
    static auto fn_ = std::atomic<fn_t>{};
    auto fn         = fn_.load(std::memory_order_relaxed);
    if (!fn)
        fn_ = fn = reinterpret_cast<fn_t>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    c17::delay();
    return fn(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    using fn_t      = int (*)(pthread_mutex_t*);
    static auto fn_ = std::atomic<fn_t>{};
    auto fn         = fn_.load(std::memory_order_relaxed);
    if (!fn)
        fn_ = fn =
            reinterpret_cast<fn_t>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    auto r = fn(m);
    c17::delay();
    return r;
}
#endif
