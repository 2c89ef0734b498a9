#pragma once
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "exec.h"

namespace sim {
struct RefResult {
    bool available = false;
    std::string outcome, result, logText;
    uint64_t allocs = 0;
    uint64_t memoOnAllocs = 0;
};

struct Stats {
    uint64_t runs = 0, steps = 0, discardedSteps = 0, discardedRuns = 0, refRuns = 0, refHits = 0, noRef = 0, compared = 0;
    uint64_t allocPlanned = 0, allocFired = 0, allocSurvived = 0, burstFired = 0, quotaFired = 0, bigFired = 0;
    uint64_t sinkPlanned = 0, sinkFired = 0, cbPlanned = 0, cbFired = 0, nestedPlanned = 0, nestedRun = 0;
    uint64_t forcedMiss = 0, lookups = 0, cacheClears = 0, loggerSwaps = 0, clockJumps = 0, clockReads = 0, threadSwitches = 0,
      threadExits = 0, drops = 0, warnings = 0;
    double simSeconds = 0;
    uint64_t allocsTotal = 0;
    std::map<std::string, uint64_t> opCounts, outcomes;
    std::unordered_map<uint64_t, int> interleavings, states, faultPoints;
};

// Fault-free, memo-free evaluation of one step's dependency cone as the first and only thing a
// fresh process does.
const RefResult& reference(const Scenario& sc, int id, std::map<int, std::string>& terms, Stats& st);

std::vector<Violation> judge(const Scenario& sc, const RunResult& run, Stats& st);
bool relevant(const std::string& prop, const std::string& cls);
}
