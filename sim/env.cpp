#include "env.h"
#include <chrono>
#include <cstdlib>
#include <ctime>
#include <random>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
namespace {
    int gMode = 0;
    uint64_t gState = 1;
    int64_t gNow = 1500000000ll * 1000000000ll;
    uint64_t gReads = 0;
    int64_t gSpan = 0;
    uint64_t gEntropy = 42;

    uint64_t mix(uint64_t& s)
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    void advance(int64_t d)
    {
        gNow += d;
        gSpan += d < 0 ? -d : d;
        const int64_t lim = 8000000000ll * 1000000000ll;
        if (gNow > lim || gNow < -lim)
            gNow = 1500000000ll * 1000000000ll;
    }

    int64_t readClock()
    {
        ++gReads;
        uint64_t r = mix(gState);
        switch (gMode) {
            case 0: break;
            case 1: advance(static_cast<int64_t>(r % 50000)); break;
            case 2: advance(static_cast<int64_t>(r % 20000000000ull) - 10000000000ll); break;
            case 3: advance(-static_cast<int64_t>(r % 5000000ull)); break;
            default: advance((r & 1 ? 1 : -1) * static_cast<int64_t>(r % (86400ull * 365 * 1000000000ull))); break;
        }
        return gNow;
    }
}

void clockInit(int mode, uint64_t seed)
{
    gMode = mode;
    gState = seed ^ 0xC10Cull;
    gEntropy = seed ^ 0xE27ull;
    gReads = 0;
    gSpan = 0;
}
void clockJump(int64_t ns) { advance(ns); }
uint64_t clockReads() { return gReads; }
int64_t clockSpan() { return gSpan; }
double realNow()
{
    struct timespec ts {};
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}
}

// The executable's definitions pre-empt the ones of libstdc++/libc.
namespace std::chrono {
inline namespace _V2 {
    system_clock::time_point system_clock::now() noexcept
    {
        return time_point(duration_cast<duration>(nanoseconds(sim::readClock())));
    }
    steady_clock::time_point steady_clock::now() noexcept
    {
        // A steady clock never runs backward: simulate it by the absolute distance travelled.
        sim::readClock();
        return time_point(duration_cast<duration>(nanoseconds(sim::clockSpan())));
    }
}
}

unsigned int std::random_device::_M_getval()
{
    return static_cast<unsigned>(sim::mix(sim::gEntropy));
}

extern "C" {
time_t time(time_t* t)
{
    time_t v = static_cast<time_t>(sim::readClock() / 1000000000ll);
    if (t)
        *t = v;
    return v;
}
int clock_gettime(clockid_t, struct timespec* ts)
{
    int64_t v = sim::readClock();
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    if (ts->tv_nsec < 0) {
        ts->tv_nsec += 1000000000ll;
        --ts->tv_sec;
    }
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    int64_t v = sim::readClock();
    tv->tv_sec = v / 1000000000ll;
    tv->tv_usec = (v % 1000000000ll) / 1000;
    return 0;
}
clock_t clock(void)
{
    return static_cast<clock_t>(sim::readClock() / 1000);
}
int rand(void) { return static_cast<int>(sim::mix(sim::gEntropy) & 0x7fffffff); }
long random(void) { return static_cast<long>(sim::mix(sim::gEntropy) & 0x7fffffff); }
void srand(unsigned) {}
void srandom(unsigned) {}
}
