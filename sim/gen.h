#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "exec.h"
#include "scenario.h"

namespace sim {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + static_cast<long>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int pct) { return static_cast<int>(below(100)) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Profile {
    int id = 0;
    int family = 0; // symbols have names that differ in details only
    int clients = 2;
    int opsPerClient = 8;
    int burn = 0;              // additional history: number of throw-away normalisations
    int pctRepeat = 25;        // repeat an earlier step's term
    int pctControl = 10;
    int pctObserve = 20;
    int pctPrint = 5;
    int pctLinear = 4;
    int pctParse = 6;
    int pctNoise = 5;          // operations that make the library log something
    int pctInPlace = 15;
    int pctMap = 0;
    int pctTemporaries = 0;
    int pctDrop = 5;
    int pctSimilar = 0;        // an earlier expression with one detail changed
    int pctSibling = 0;        // one operation on a row of expressions that differ in one argument
    int pctNames = 0;          // unusual symbol names
    int pctSoak = 0;           // a long stretch of work of one kind
    int pctStorm = 0;          // ... each of which runs out of memory
    int pctWarnText = 0;       // texts whose evaluation raises messages, very long texts
    int pctLogSwap = 0;
    int pctThreadExit = 0;
    int threads = 0;
    // faults
    int pctAlloc = 0, pctSink = 0, pctCb = 0, pctNest = 0, pctNestFault = 0;
    int maxAttempts = 1;
};

Profile profileFor(const std::string& prop, Rng& r, Config& cfg);
Scenario workload(const Profile& p, const Config& cfg, Rng& r);
// Adds faulted attempts and nested steps; counts come from a fault-free dry run.
Scenario plant(const Scenario& sc, const RunResult& dry, const Profile& p, Rng& r);
}
