// Executes a scenario against the real library inside this process.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "scenario.h"

namespace sim {
struct LogRec {
    int logger;
    int level; // 0 debug .. 4 critical
    std::string payload;
};

struct Event {
    int id = 0;
    std::string outcome;          // ok, none, skip, big, budget, exc:<kind>
    std::string result;           // fingerprint of the value(s) or the observation
    uint64_t allocs = 0;
    uint64_t allocFired = 0;
    bool sinkFired = false;
    bool cbFired = false;
    long callbacks = 0;
    uint64_t logCount = 0;        // messages this step raised, all levels
    std::string logText;          // spelled out "level payload" lines (capped)
    std::string coutText;         // what the default logger wrote to std::cout
    std::string tag;              // additional data (stream state, write phase, ...)
    bool nested = false;
    uint64_t nodes = 0;
    int logger = 1;               // kind of logger installed when the step began

    bool fired() const { return allocFired || sinkFired || cbFired; }
};

struct Violation {
    std::string cls;
    int step = -1;
    std::string detail;
};

struct RunResult {
    bool finished = false;
    std::string crash;            // signal or exit description if not finished
    std::vector<Event> events;
    std::vector<Violation> violations;
    uint64_t live[4] = {0, 0, 0, 0}; // blocks/bytes after the first, blocks/bytes after the second pass
    uint64_t clockReads = 0;
    int64_t clockSpan = 0;
    uint64_t forcedMisses = 0, lookups = 0;
    uint64_t steps = 0, nestedRun = 0, threadSwitches = 0;
    uint64_t retained = 0;
    uint64_t journal = 0;         // hash over everything above
};

struct ExecOptions {
    bool reference = false;      // fault-free, main thread only
    uint64_t budget = 0;         // allocation budget per step
    double cpuLimit = 20;
};

// Runs the scenario in a forked child of this (pristine) process.
RunResult runForked(const Scenario& sc, const ExecOptions& opt);

// In-process part.
void executeInto(const Scenario& sc, const ExecOptions& opt, char* shm, size_t cap);
}
