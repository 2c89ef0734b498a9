#include <csignal>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include "env.h"
#include "exec.h"
#include "gen.h"
#include "judge.h"

using namespace sim;

namespace {
std::string json(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += static_cast<char>(c);
    }
    return r + "\"";
}

const uint64_t kDryBudget = 400000;

struct Generated {
    Scenario sc;
    RunResult run;
    bool discarded = false;
};

void removeSteps(Scenario& sc, const std::set<int>& ids)
{
    std::vector<Step> keep;
    for (auto& s : sc.steps)
        if (!ids.count(s.id))
            keep.push_back(s);
    sc.steps = keep;
}

ExecOptions runOptions()
{
    ExecOptions o;
    o.budget = 8 * kDryBudget + 100000;
    o.cpuLimit = getenv("SIM_CPU") ? atoi(getenv("SIM_CPU")) : 40;
    return o;
}

// A soak is a series of independent pieces of work. True if one of them ends a fresh process all by itself.
bool diesAnyway(const Scenario& sc, const Step& soak)
{
    Scenario one;
    one.cfg = sc.cfg;
    one.cfg.leak = one.cfg.holdAll = 0;
    ExecOptions opt;
    opt.budget = kDryBudget;
    opt.cpuLimit = 10;
    for (long i = 0; i < soak.n; ++i) {
        Step s = soak;
        s.thread = 0;
        s.sinkAt = i;
        s.n = i + 1;
        if ((s.m / 50) % 2)
            s.m -= 50; // no failing memory
        one.steps.assign(1, s);
        if (!runForked(one, opt).finished)
            return true;
    }
    return false;
}

Generated generate(const std::string& prop, uint64_t seed, uint64_t index, Stats& st)
{
    Generated g;
    uint64_t h = seed * 0x9E3779B97F4A7C15ull;
    for (char c : prop)
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
    h ^= (index + 1) * 0xD1B54A32D192ED03ull;
    Rng r(h);
    Config cfg;
    cfg.seed = seed;
    cfg.index = index;
    Profile p = profileFor(prop, r, cfg);
    Scenario sc = workload(p, cfg, r);
    Rng faults(h ^ 0xFA17ull);
    ExecOptions dryOpt;
    dryOpt.budget = kDryBudget;
    dryOpt.cpuLimit = 20;
    RunResult dry;
    // A fault-free dry run measures every step. Steps that are too expensive leave the workload.
    for (int round = 0;; ++round) {
        const int leak = sc.cfg.leak;
        sc.cfg.leak = 0;
        dry = runForked(sc, dryOpt);
        sc.cfg.leak = leak;
        if (dry.crash == "exit 77") { // too much memory for the simulator
            g.discarded = true;
            return g;
        }
        std::set<int> drop;
        for (const auto& e : dry.events)
            if (e.outcome == "budget")
                drop.insert(e.id);
        if (!dry.finished && drop.empty()) {
            // the step that did not come back
            std::set<int> seen;
            for (const auto& e : dry.events)
                seen.insert(e.id);
            for (const auto& s : sc.steps)
                if (!seen.count(s.id) && s.op != "texit") {
                    std::map<int, std::string> terms;
                    const RefResult& ref = reference(sc, s.id, terms, st);
                    // Fine on its own: the history broke it. An access to memory that is not there is never fine.
                    const bool wild = dry.crash == std::string("signal ") + strsignal(SIGSEGV)
                      || dry.crash == std::string("signal ") + strsignal(SIGBUS);
                    const bool fine = s.op == "soak" ? !diesAnyway(sc, s) : ref.available && ref.allocs < 50000;
                    if (fine || (wild && prop == "C04")) {
                        g.sc = sc;
                        g.run = dry;
                        return g;
                    }
                    if (getenv("SIM_DROPPED"))
                        fprintf(stderr, "DROPPED %s %llu %d %s %s\n", prop.c_str(), static_cast<unsigned long long>(index), s.id,
                          s.op.c_str(), dry.crash.c_str()),
                          fputs(toText(sc).c_str(), stderr);
                    drop.insert(s.id);
                    break;
                }
        }
        if (drop.empty() && dry.finished)
            break;
        st.discardedSteps += drop.size();
        removeSteps(sc, drop);
        if (round > 12 || sc.steps.empty()) {
            g.discarded = true;
            return g;
        }
    }
    if (p.pctAlloc || p.pctSink || p.pctCb || p.pctNest)
        sc = plant(sc, dry, p, faults);
    else if (!sc.cfg.leak) {
        g.sc = sc;
        g.run = std::move(dry);
        return g;
    }
    g.sc = sc;
    g.run = runForked(sc, runOptions());
    return g;
}

uint64_t mixHash(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    return h * 1099511628211ull;
}

uint64_t strHash(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}

uint64_t account(const Scenario& sc, const RunResult& run, Stats& st, uint64_t& fired)
{
    fired = 0;
    ++st.runs;
    std::map<int, const Step*> steps;
    for (const auto& s : sc.steps) {
        steps[s.id] = &s;
        if (s.af.nth || s.af.quota || s.af.bigger)
            ++st.allocPlanned;
        if (s.sink != Sink::None)
            ++st.sinkPlanned;
        if (s.cbThrow)
            ++st.cbPlanned;
        if (s.in >= 0)
            ++st.nestedPlanned;
        if (s.op == "texit")
            ++st.threadExits;
    }
    uint64_t order = 0;
    for (const auto& e : run.events) {
        ++st.steps;
        const Step& s = *steps.at(e.id);
        fired += e.fired();
        ++st.opCounts[s.op];
        ++st.outcomes[e.outcome.substr(0, 12)];
        st.allocsTotal += e.allocs;
        st.warnings += e.logCount;
        if (e.allocFired) {
            ++st.allocFired;
            if (s.af.burst > 1)
                ++st.burstFired;
            if (s.af.quota)
                ++st.quotaFired;
            if (s.af.bigger)
                ++st.bigFired;
            if (e.outcome == "ok")
                ++st.allocSurvived;
            st.faultPoints[mixHash(strHash(s.op), e.allocs)]++;
        }
        if (e.sinkFired) {
            ++st.sinkFired;
            st.faultPoints[mixHash(strHash("sink"), mixHash(static_cast<uint64_t>(s.sink), static_cast<uint64_t>(s.sinkAt)))]++;
        }
        if (e.cbFired) {
            ++st.cbFired;
            st.faultPoints[mixHash(strHash("cb" + s.op), static_cast<uint64_t>(s.cbThrow))]++;
        }
        if (s.op == "clear")
            ++st.cacheClears;
        if (s.op == "setlogger")
            ++st.loggerSwaps;
        if (s.op == "clockjump")
            ++st.clockJumps;
        if (s.op == "drop")
            ++st.drops;
        order = mixHash(order, mixHash(strHash(s.op), mixHash(static_cast<uint64_t>(s.thread), strHash(e.outcome))));
        if (e.outcome == "ok" && !e.result.empty())
            st.states[mixHash(strHash(s.op), strHash(e.result))]++;
    }
    st.interleavings[order]++;
    st.clockReads += run.clockReads;
    st.simSeconds += static_cast<double>(run.clockSpan) * 1e-9;
    st.lookups += run.lookups;
    st.forcedMiss += run.forcedMisses;
    st.nestedRun += run.nestedRun;
    st.threadSwitches += run.threadSwitches;
    return order;
}

void printStats(const Stats& s)
{
    std::ostringstream o;
    o << "STATS {";
    auto num = [&](const char* k, double v) {
        char b[64];
        snprintf(b, sizeof b, "%.0f", v);
        o << "\"" << k << "\":" << b << ",";
    };
#define N(x) num(#x, static_cast<double>(s.x))
    N(runs); N(steps); N(discardedSteps); N(discardedRuns); N(refRuns); N(refHits); N(noRef); N(compared);
    N(allocPlanned); N(allocFired); N(allocSurvived); N(burstFired); N(quotaFired); N(bigFired); N(sinkPlanned);
    N(sinkFired); N(cbPlanned); N(cbFired); N(nestedPlanned); N(nestedRun); N(forcedMiss); N(lookups); N(cacheClears);
    N(loggerSwaps); N(clockJumps); N(clockReads); N(threadSwitches); N(threadExits); N(drops); N(warnings); N(simSeconds);
    N(allocsTotal);
#undef N
    o << "\"ops\":{";
    bool first = true;
    for (auto& [k, v] : s.opCounts) {
        o << (first ? "" : ",") << json(k) << ":" << v;
        first = false;
    }
    o << "},\"outcomes\":{";
    first = true;
    for (auto& [k, v] : s.outcomes) {
        o << (first ? "" : ",") << json(k) << ":" << v;
        first = false;
    }
    o << "}}";
    puts(o.str().c_str());
    auto dump = [](const char* k, const std::unordered_map<uint64_t, int>& m) {
        fputs(k, stdout);
        for (auto& [h, c] : m)
            printf(" %llx", static_cast<unsigned long long>(h));
        fputs("\n", stdout);
    };
    dump("INTERLEAVINGS", s.interleavings);
    dump("STATES", s.states);
    dump("FAULTPOINTS", s.faultPoints);
    fflush(stdout);
}

std::string slurp(const char* f)
{
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}
}

int main(int argc, char** argv)
{
    if (argc < 2)
        return 2;
    const std::string mode = argv[1];
    Stats st;
    if (mode == "batch") { // PROP SEED FROM TO STRIDE MAXSEC
        const std::string prop = argv[2];
        const uint64_t seed = strtoull(argv[3], nullptr, 10);
        const uint64_t from = strtoull(argv[4], nullptr, 10), to = strtoull(argv[5], nullptr, 10),
                       stride = strtoull(argv[6], nullptr, 10);
        const double maxSec = atof(argv[7]);
        const double start = realNow();
        uint64_t found = 0;
        for (uint64_t i = from; i < to; i += stride) {
            if (realNow() - start > maxSec)
                break;
            Generated g = generate(prop, seed, i, st);
            if (g.discarded) {
                ++st.discardedRuns;
                continue;
            }
            uint64_t fired = 0;
            const uint64_t order = account(g.sc, g.run, st, fired);
            const uint64_t before = st.compared;
            std::vector<Violation> v = judge(g.sc, g.run, st);
            // index, journal, steps, order of operations and outcomes, faults that struck, results compared
            printf("RUN %llu %016llx %zu %016llx %llu %llu\n", static_cast<unsigned long long>(i),
              static_cast<unsigned long long>(g.run.journal), g.sc.steps.size(), static_cast<unsigned long long>(order),
              static_cast<unsigned long long>(fired), static_cast<unsigned long long>(st.compared - before));
            for (const auto& x : v)
                if (relevant(prop, x.cls)) {
                    printf("FOUND {\"index\":%llu,\"class\":%s,\"step\":%d,\"detail\":%s,\"scenario\":%s}\n",
                      static_cast<unsigned long long>(i), json(x.cls).c_str(), x.step, json(x.detail).c_str(),
                      json(toText(g.sc)).c_str());
                    fflush(stdout);
                    ++found;
                    break;
                }
            fflush(stdout);
            if (found >= 3 && !getenv("SIM_KEEP_GOING"))
                break;
        }
        printStats(st);
        return 0;
    }
    if (mode == "dump") {
        Generated g = generate(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), st);
        fputs(toText(g.sc).c_str(), stdout);
        return 0;
    }
    if (mode == "judge") { // FILE PROP
        Scenario sc;
        std::string err;
        if (!fromText(slurp(argv[2]), sc, err)) {
            fprintf(stderr, "%s\n", err.c_str());
            return 2;
        }
        const std::string prop = argc > 3 ? argv[3] : sc.cfg.prop;
        RunResult run = runForked(sc, runOptions());
        std::vector<Violation> v = judge(sc, run, st);
        printf("JOURNAL %016llx\n", static_cast<unsigned long long>(run.journal));
        for (const auto& x : v)
            if (relevant(prop, x.cls))
                printf("FOUND {\"class\":%s,\"step\":%d,\"detail\":%s}\n", json(x.cls).c_str(), x.step, json(x.detail).c_str());
        if (getenv("SIM_VERBOSE"))
            for (const auto& e : run.events)
                printf("EVENT %d %s %s allocs=%llu fired=%d cb=%ld logs=%llu %s\n", e.id, e.outcome.c_str(), e.result.c_str(),
                  static_cast<unsigned long long>(e.allocs), e.fired(), e.callbacks,
                  static_cast<unsigned long long>(e.logCount), encode(e.tag).c_str());
        return 0;
    }
    return 2;
}
