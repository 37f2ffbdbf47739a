// Schedule perturbation: the harness is linked with --wrap for the locking
// primitives below, so that the code under test yields or sleeps at random
// (seeded) around them. Some threads are made slow, others left alone.
#pragma once
#include <atomic>
#include <cstdint>
#include <mutex>
#include <condition_variable>
#include <sched.h>
#include <time.h>
#include <pthread.h>

namespace chaos {
inline std::atomic<uint64_t> g_seed{0};
inline std::atomic<uint32_t> g_level{0}; // 0: off, 1: yields, 2: short sleeps, 3: long ones
inline std::atomic<uint32_t> g_gen{0}, g_thread{0};

struct State
{
    uint32_t gen{0};
    uint64_t rng{0};
    uint32_t slow{0};
};
inline thread_local State t_state;

inline void start(uint64_t seed, uint32_t level)
{
    g_seed   = seed;
    g_thread = 0;
    g_gen++;
    g_level = level;
}
inline void stop() { g_level = 0; }

inline void point()
{
    uint32_t lv = g_level.load(std::memory_order_relaxed);
    if (lv == 0) {
        return;
    }
    State& s = t_state;
    if (s.gen != g_gen.load(std::memory_order_relaxed)) {
        s.gen = g_gen;
        s.rng = (g_seed + 0x9E3779B97F4A7C15ULL * (g_thread.fetch_add(1) + 1)) | 1;
        s.rng ^= s.rng >> 31;
        s.rng *= 0xBF58476D1CE4E5B9ULL;
        s.rng |= 1;
        s.slow = static_cast<uint32_t>((s.rng >> 40) % 3);
    }
    s.rng ^= s.rng << 13;
    s.rng ^= s.rng >> 7;
    s.rng ^= s.rng << 17;
    uint32_t r = static_cast<uint32_t>(s.rng >> 33);
    if (s.slow == 0 && (r & 7) != 0) {
        return;
    }
    if ((r & 3) == 0) {
        sched_yield();
        return;
    }
    if (lv >= 2 && ((r >> 2) & (s.slow == 2 ? 1 : 7)) == 0) {
        long            ns = 1000L * ((r >> 8) % (lv >= 3 ? 400 : 40));
        struct timespec ts = {0, ns};
        nanosleep(&ts, nullptr);
    }
}
} // namespace chaos

#ifdef CHAOS_WRAP
// touched from instrumented code: under AddressSanitizer, using a lock or a
// condition variable after it was freed is reported
#define CHAOS_TOUCH(p) (void)*reinterpret_cast<volatile char*>(p)
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    chaos::point();
    CHAOS_TOUCH(m);
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    CHAOS_TOUCH(m);
    int r = __real_pthread_mutex_unlock(m);
    chaos::point();
    return r;
}
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*) noexcept;
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*) noexcept;
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
    std::condition_variable*, std::unique_lock<std::mutex>&);
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c) noexcept
{
    chaos::point();
    CHAOS_TOUCH(c);
    __real__ZNSt18condition_variable10notify_oneEv(c);
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) noexcept
{
    chaos::point();
    CHAOS_TOUCH(c);
    __real__ZNSt18condition_variable10notify_allEv(c);
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
    std::condition_variable* c, std::unique_lock<std::mutex>& l)
{
    chaos::point();
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
    chaos::point();
}
}
#endif
