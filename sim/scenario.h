// A scenario is the complete, explicit description of one simulated run: the interleaved steps of
// all clients, the thread each one runs on, and every fault with the exact point where it strikes.
// Executing a scenario draws no random numbers except from the seeds written into it.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "alloc.h"

namespace sim {
enum class Sink : int { None = 0, Fail = 1, Throw = 2, Transient = 3 };

struct Step {
    int id = 0;
    int thread = 0;
    std::string op;
    std::vector<int> args;
    std::string text;
    long n = 0, m = 0;
    // faults
    AllocFault af;
    Sink sink = Sink::None;
    long sinkAt = 0;
    bool sinkExc = false;
    long cbThrow = 0; // throw out of the k-th callback
    // nesting: run inside the cbAt-th callback of step `in`
    int in = -1;
    long cbAt = 0;

    bool hasFault() const
    {
        return af.nth || af.bigger || af.quota || sink != Sink::None || cbThrow;
    }
};

struct Config {
    std::string prop = "C01";
    uint64_t seed = 0, index = 0;
    int placement = 1;
    int fill = 0xA5;
    int clockMode = 1;
    int memo = 1;      // 1: as shipped, 0: every look-up misses, 2: look-ups miss at random (missPm per mille)
    int missPm = 0;
    int leak = 0;      // 1: warm run, then the run; compare live memory; 2: cold run, then fault-free
    int logger = 1;    // 0 default (writes to std::cout), 1 recording, 2 silent base class override
    int holdAll = 0;   // re-check every held value after every step
    int profile = 0;
    int locale = 0;    // 1: the global locale groups digits and has a decimal comma
};

struct Scenario {
    Config cfg;
    std::vector<Step> steps;
};

std::string encode(const std::string& s);
std::string decode(const std::string& s);
std::string toText(const Scenario& sc);
std::string stepToText(const Step& s);
bool fromText(const std::string& text, Scenario& sc, std::string& error);
// Canonical term of the value a step produces, spelled over its whole dependency cone.
std::string termOf(const Scenario& sc, int id, std::map<int, std::string>& memo);
// Scenario with nothing but the dependency cone of a step, without faults.
Scenario coneOf(const Scenario& sc, int id);
bool isControl(const std::string& op);
}
