#include "chaos.h"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#define NOI __attribute__((no_instrument_function, noinline))
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(thread_sanitizer)
#define NOS __attribute__((no_sanitize("thread")))
#else
#define NOS
#endif
namespace chaos
{
    std::atomic<long> delays{0}, wakeups{0}, waits{0};
    static volatile unsigned mask = 0;  // 0: off
    static volatile unsigned spur = 0;
    static volatile uint64_t base = 0;
    static thread_local uint64_t state = 0;
    static thread_local bool inside = false;

    NOI NOS static inline uint64_t rnd()
    {
        uint64_t z = (state += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        return z ^ (z >> 29);
    }
    NOI NOS static void delay(uint64_t r)
    {
        inside = true;
        delays.fetch_add(1, std::memory_order_relaxed);
        unsigned k = (unsigned)(r % 16);
        if (k < 6) { for (volatile unsigned i = 0; i < (unsigned)(r >> 8) % 400; ++i) {} }
        else if (k < 13) sched_yield();
        else { timespec t = {0, (long)((r >> 8) % (k == 15 ? 150000 : 20000))}; nanosleep(&t, nullptr); }
        inside = false;
    }
    NOI NOS static void point()
    {
        unsigned m = mask;
        if (!m || inside || !state) return;
        uint64_t r = rnd();
        if (((r >> 40) & m) == 0) delay(r);
    }
    NOI NOS void start(uint64_t seed, unsigned level) { base = seed; mask = level == 0 ? 0 : level == 1 ? 0xfff : level == 2 ? 0x3ff : level == 3 ? 0x7f : 0x1f; }
    NOI NOS void stop() { mask = 0; spur = 0; }
    NOI NOS void thread(uint64_t seed) { state = base * 31 + seed * 0x9E3779B97F4A7C15ull + 1; }
    NOI NOS void spurious(unsigned p) { spur = p; }
    NOI NOS void pause(unsigned us)
    {
        if (!us) return;
        uint64_t r = rnd();
        timespec t = {0, (long)(r % (us * 1000ull))};
        if (r >> 62) nanosleep(&t, nullptr); else sched_yield();
    }
}
extern "C"
{
    NOI NOS void __cyg_profile_func_enter(void*, void*) { chaos::point(); }
    NOI NOS void __cyg_profile_func_exit(void*, void*) {}
    NOI NOS void __cyg_profile_func_enter_bare() { chaos::point(); }

#ifdef CHAOS_PTHREAD
    typedef int (*LockFn)(pthread_mutex_t*);
    typedef int (*WaitFn)(pthread_cond_t*, pthread_mutex_t*);
    NOI int pthread_mutex_lock(pthread_mutex_t* m)
    {
        static LockFn real = (LockFn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
        chaos::point();
        return real(m);
    }
    NOI int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        static LockFn real = (LockFn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
        int r = real(m);
        chaos::point();
        return r;
    }
    NOI int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        static WaitFn real = (WaitFn)dlsym(RTLD_NEXT, "pthread_cond_wait");
        static LockFn lock = (LockFn)dlsym(RTLD_NEXT, "pthread_mutex_lock"), unlock = (LockFn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
        chaos::waits.fetch_add(1, std::memory_order_relaxed);
        if (chaos::spur && chaos::state && chaos::rnd() % 100 < chaos::spur)
        {
            // a spurious wake-up, allowed by POSIX at any time
            chaos::wakeups.fetch_add(1, std::memory_order_relaxed);
            unlock(m);
            if (chaos::rnd() % 2) sched_yield();
            lock(m);
            return 0;
        }
        chaos::point();
        return real(c, m);
    }
#endif
}
