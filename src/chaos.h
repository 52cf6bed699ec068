// Schedule disturbance: random delays at library function entries (-finstrument-functions), at pthread mutex calls and
// spurious returns of pthread_cond_wait. Only random numbers decide; no state of the library is touched.
#pragma once
#include <atomic>
#include <cstdint>
namespace chaos
{
    void start(uint64_t seed, unsigned level); // level 0: off, larger: more delays
    void stop();
    void thread(uint64_t seed);                // seeds the calling thread
    void spurious(unsigned percent);           // share of condition waits that return at once
    void pause(unsigned maxMicros);            // a random delay of the calling thread
    extern std::atomic<long> delays, wakeups, waits;
}
