#include "judge.h"
#include <algorithm>
#include <set>

namespace sim {
namespace {
    std::unordered_map<std::string, RefResult> gRefs;
    const uint64_t kRefBudget = 600000;
}

const RefResult& reference(const Scenario& sc, int id, std::map<int, std::string>& terms, Stats& st)
{
    const std::string term = termOf(sc, id, terms);
    if (auto it = gRefs.find(term); it != gRefs.end()) {
        ++st.refHits;
        return it->second;
    }
    if (gRefs.size() > 200000)
        gRefs.clear();
    RefResult res;
    Scenario cone = coneOf(sc, id);
    cone.cfg.leak = 0;
    cone.cfg.holdAll = 0;
    cone.cfg.logger = 1;
    cone.cfg.memo = 0;
    ExecOptions opt;
    opt.reference = true;
    opt.budget = kRefBudget;
    opt.cpuLimit = 10;
    for (int attempt = 0; attempt < 2 && !res.available; ++attempt) {
        cone.cfg.memo = attempt == 0 ? 0 : 1;
        ++st.refRuns;
        RunResult r = runForked(cone, opt);
        if (!r.finished)
            continue;
        bool ok = true;
        for (const auto& e : r.events)
            if (e.outcome == "budget")
                ok = false;
        if (!ok)
            continue;
        for (const auto& e : r.events)
            if (e.id == id) {
                res.available = true;
                res.outcome = e.outcome;
                res.result = e.result;
                res.logText = e.logText;
                res.allocs = e.allocs;
            }
    }
    if (!res.available)
        ++st.noRef;
    return gRefs[term] = res;
}

namespace {
    bool startsWith(const std::string& s, const std::string& p)
    {
        return s.compare(0, p.size(), p) == 0;
    }

    std::string clip(const std::string& s)
    {
        return s.size() > 500 ? s.substr(0, 500) + "..." : s;
    }

    std::vector<std::string> split(const std::string& s)
    {
        std::vector<std::string> r;
        std::string cur;
        for (char c : s)
            if (c == ';') {
                r.push_back(cur);
                cur.clear();
            } else
                cur += c;
        return r;
    }

    const std::string kLookupNoise = "Equality request between two undefined";

    std::string noLookupNoise(const std::string& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size();) {
            const size_t j = s.find('\n', i);
            const std::string line = s.substr(i, j == std::string::npos ? j : j + 1 - i);
            const size_t n = std::min(line.size(), kLookupNoise.size());
            if (line.compare(0, n, kLookupNoise, 0, n) != 0)
                r += line;
            i += line.size();
        }
        return r;
    }

    struct Line {
        char level;
        std::string payload;
        bool operator==(const Line& o) const { return level == o.level && payload == o.payload; }
    };

    // Messages of the levels warning and above. Those of the debug channel may quote elapsed time and
    // are not compared. Numbers of temporary symbols are no part of the message proper.
    std::vector<Line> messages(const std::string& logText, bool& truncated)
    {
        std::vector<Line> r;
        bool keep = false;
        size_t i = 0;
        truncated = logText.size() >= 20000;
        while (i < logText.size()) {
            size_t j = logText.find('\n', i);
            if (j == std::string::npos)
                j = logText.size();
            std::string line = logText.substr(i, j - i);
            for (size_t k = line.find('#'); k != std::string::npos; k = line.find('#', k + 1)) {
                size_t e = k + 1;
                while (e < line.size() && isdigit(static_cast<unsigned char>(line[e])))
                    ++e;
                line.erase(k + 1, e - k - 1);
            }
            if (line.size() > 1 && line[0] >= '0' && line[0] <= '4' && line[1] == ' ') {
                // comparing keys during a look-up may say so as well, how often depends on what the table holds
                keep = line[0] >= '2' && line.find(kLookupNoise) == std::string::npos;
                if (keep)
                    r.push_back({line[0], line.substr(2)});
            } else if (keep)
                r.back().payload += "\n" + line.substr(line.empty() ? 0 : 1);
            i = j + 1;
        }
        return r;
    }

    std::string text(const std::vector<Line>& l)
    {
        std::string r;
        for (const auto& x : l)
            r += x.level + (" " + x.payload) + "\n";
        return r;
    }

    bool subsequence(const std::vector<Line>& a, const std::vector<Line>& b)
    {
        size_t i = 0;
        for (size_t j = 0; i < a.size() && j < b.size(); ++j)
            if (a[i] == b[j])
                ++i;
        return i == a.size();
    }

    std::string noTmpIds(const std::string& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i) {
            r += s[i];
            if (s[i] == '#')
                while (i + 1 < s.size() && isdigit(static_cast<unsigned char>(s[i + 1])))
                    ++i;
        }
        return r;
    }
}

namespace {
    // Which messages a step delivers: with the memo tables off those of a fresh process, otherwise
    // those minus the ones raised in computations that are looked up.
    void judgeLog(const Scenario&, const Step& s, const Event& e, const RefResult& ref, bool memoOff, std::vector<Violation>& v)
    {
        if (e.nested || e.allocFired || e.cbFired || e.outcome != ref.outcome)
            return;
        bool cut = false, cutRef = false;
        const auto want = messages(ref.logText, cutRef);
        if (cutRef)
            return;
        auto bad = [&](const std::string& d) { v.push_back({"log-delivery", s.id, s.op + ": " + d}); };
        if (e.logger == 1) {
            const auto got = messages(e.logText, cut);
            if (cut)
                return;
            if (memoOff && !(got == want))
                bad("delivered " + clip(text(got)) + " expected " + clip(text(want)));
            else if (!subsequence(got, want))
                bad("delivered " + clip(text(got)) + " of which not all belong to " + clip(text(want)));
            if (!e.coutText.empty())
                bad("standard output got " + clip(e.coutText) + " although a client logger is installed");
        } else if (e.logger == 0) {
            if (!e.logText.empty())
                bad("a replaced logger got " + clip(e.logText));
            std::string all;
            for (const auto& l : want)
                all += l.payload + "\n";
            const std::string got = noLookupNoise(noTmpIds(e.coutText));
            if (e.sinkFired ? (memoOff && !startsWith(all, got)) : memoOff && got != all)
                bad("standard output got " + clip(got) + " expected " + clip(all));
            else if (!memoOff && !e.sinkFired && got.size() > all.size())
                bad("standard output got " + clip(got) + " expected at most " + clip(all));
        } else if (!e.logText.empty() || !e.coutText.empty())
            bad("a silent logger is installed, yet " + clip(e.logText + e.coutText) + " was delivered");
    }
}

std::vector<Violation> judge(const Scenario& sc, const RunResult& run, Stats& st)
{
    std::vector<Violation> v = run.violations;
    std::map<int, std::string> terms;
    std::map<int, const Step*> steps;
    for (const auto& s : sc.steps)
        steps[s.id] = &s;
    // Building blocks are compared through what is built from them; a quarter of them, and every
    // heavier operation, observation or final value also directly.
    static const std::set<std::string> light{"sym", "psym", "int", "frac", "dbl", "zero", "pi", "e", "varstr", "add", "sub",
      "mul", "div", "pow", "neg", "sqrt", "log", "sin", "cos", "tan", "asin", "acos", "atan", "elem", "get", "copy", "plus"};
    std::set<int> used, needed;
    for (const auto& s : sc.steps)
        if (!isControl(s.op) && !s.hasFault())
            used.insert(s.args.begin(), s.args.end());
    for (const auto& s : sc.steps)
        if (!light.count(s.op) || !used.count(s.id) || s.in >= 0 || (s.id * 2654435761u >> 7) % 4 == 0)
            needed.insert(s.id);
    bool faultBefore = false;
    // only while the seam really makes every look-up miss
    const bool seam = run.lookups > 0 && run.forcedMisses == run.lookups;
    bool memoOff = sc.cfg.memo == 0 && seam;
    for (const auto& e : run.events) {
        const Step& s = *steps.at(e.id);
        if (s.op == "memo" && s.in < 0)
            memoOff = s.n == 0 && seam;
        const bool fired = e.fired();
        const bool wasBefore = faultBefore;
        faultBefore = faultBefore || fired;
        if (isControl(s.op)) {
            if (!fired && e.outcome != "ok" && e.outcome != "skip")
                v.push_back({"wrong-outcome", s.id, s.op + " ended with " + e.outcome});
            continue;
        }
        if (e.outcome == "skip" || e.outcome == "big")
            continue;
        if (!fired && !needed.count(s.id))
            continue;
        const RefResult& ref = reference(sc, s.id, terms, st);
        if (!ref.available || ref.outcome == "skip" || ref.outcome == "big")
            continue;
        ++st.compared;
        const std::string phase = fired ? "-at-fault" : wasBefore ? "-after-fault" : "";
        auto bad = [&](const std::string& cls, const std::string& d) {
            v.push_back({cls, s.id, s.op + (e.nested ? " (inside a callback)" : "") + ": " + d});
        };
        if (e.outcome == "budget") {
            if (ref.allocs < 100000)
                bad("no-progress" + phase, "used more than " + std::to_string(e.allocs) + " allocations, a fresh process needs "
                    + std::to_string(ref.allocs));
            continue;
        }
        const std::string nestTag = e.nested ? "-nested" : "";
        judgeLog(sc, s, e, ref, memoOff, v);
        if (e.outcome == ref.outcome) {
            if (e.result != ref.result)
                bad("wrong-result" + phase + nestTag, "got " + clip(e.result) + " expected " + clip(ref.result));
            if (!fired && ref.allocs && e.allocs > 8 * ref.allocs + 50000)
                bad("no-progress" + phase, "needed " + std::to_string(e.allocs) + " allocations, a fresh process needs "
                    + std::to_string(ref.allocs));
            continue;
        }
        // different outcome: only a fault may explain it
        bool explained = false;
        if (e.allocFired && (e.outcome == "exc:alloc" || e.outcome == "exc:badalloc"))
            explained = true;
        if (e.cbFired && e.outcome == "exc:cb")
            explained = true;
        if (s.op != "print" && e.sinkFired && s.sinkExc && (e.outcome == "exc:ios" || e.outcome == "exc:cb"))
            explained = true; // the client asked its stream to throw
        if (s.op == "print") {
            if (e.sinkFired && (e.outcome == "streambad" || e.outcome == "exc:ios" || e.outcome == "exc:cb"))
                explained = true;
            if (e.allocFired && s.n == 4 && e.outcome == "streambad")
                explained = true; // a string stream that cannot grow reports it by its state
            if (explained) {
                std::string got = e.tag;
                if (s.n != 3)
                    got = got.substr(got.find(' ') + 1);
                if (s.n != 3 && e.sinkFired && s.sink != Sink::None && startsWith(e.tag, "good "))
                    bad("sink-unreported", "the sink failed but the stream is in a good state");
                if (!startsWith(ref.result, got))
                    bad("print-not-prefix", "emitted " + clip(got) + " which is no prefix of " + clip(ref.result));
                else if (e.sinkFired && !e.allocFired && static_cast<long>(got.size()) != std::min<long>(s.sinkAt, static_cast<long>(ref.result.size())))
                    bad("print-not-prefix", "emitted " + std::to_string(got.size()) + " bytes, sink accepted " + std::to_string(s.sinkAt));
            }
        }
        if (!explained) {
            if (fired && startsWith(e.outcome, "exc:"))
                bad("foreign-exception", "got " + e.outcome + " instead of the injected failure; fault-free outcome is " + ref.outcome);
            else
                bad("wrong-outcome" + phase + nestTag, "got " + e.outcome + " " + clip(e.result) + " expected " + ref.outcome + " "
                    + clip(ref.result));
            continue;
        }
        if ((s.op == "solve" || s.op == "inv") && e.cbFired && startsWith(e.tag, "writing ") && ref.outcome == "ok") {
            // a client accessor failed while the solution was being handed over: what was written
            // so far must be the right leading part
            const size_t nl = e.tag.find('\n');
            auto init = split(e.tag.substr(8, nl - 8)), now = split(e.tag.substr(nl + 1)), want = split(ref.result);
            bool tail = false, ok = init.size() == now.size() && now.size() == want.size();
            for (size_t i = 0; ok && i < now.size(); ++i) {
                const bool isWant = now[i] == want[i], isInit = now[i] == init[i];
                if (isWant && isInit)
                    continue;
                if (isInit)
                    tail = true;
                else if (!isWant || tail)
                    ok = false;
            }
            if (!ok)
                bad("linear-partial-output", "after a failing accessor the output is no leading part of the solution: " + clip(e.tag)
                    + " solution " + clip(ref.result));
        }
    }
    if (!run.finished && run.crash != "exit 77") {
        int last = run.events.empty() ? -1 : run.events.back().id;
        v.push_back({"crash", last, "run ended with " + run.crash + " after step " + std::to_string(last)});
    }
    const bool differ = run.live[0] != run.live[2] || run.live[1] != run.live[3];
    const std::string amounts = std::to_string(run.live[0]) + "/" + std::to_string(run.live[1]) + " before and "
      + std::to_string(run.live[2]) + "/" + std::to_string(run.live[3]) + " after";
    if (sc.cfg.leak == 1 && run.finished && differ)
        v.push_back({"leak", -1, "all values released and the memo tables dropped, yet the run with faults left memory behind: "
              "live blocks/bytes are " + amounts});
    if (sc.cfg.leak == 3 && run.finished && differ)
        v.push_back({"growth", -1, "doing the same work again needs more memory than before: live blocks/bytes are " + amounts});
    return v;
}

// Which observations contradict which property. Everything that ends a run early contradicts all of
// them: nothing that was asked for afterwards happened.
bool relevant(const std::string& prop, const std::string& cls)
{
    static const std::set<std::string> memory{"leak", "growth", "heap-corruption", "logger-leak", "drop-failed"};
    static const std::set<std::string> log{"log-wrong-logger", "log-delivery", "logger-leak", "message-changed"};
    static const std::set<std::string> printing{"print-not-prefix", "sink-unreported", "stream-state-changed"};
    static const std::set<std::string> linear{"linear-input-changed", "linear-skipped-written", "linear-partial-output",
      "linear-singular-accepted", "linear-wrong-solution", "linear-regular-refused"};
    static const std::set<std::string> symbols{"tmp-leak", "foreign-symbol"};
    static const std::set<std::string> keys{"map-mismatch", "equality", "hash"};
    if (cls == "crash" || cls == "heap-corruption")
        return true;
    if (prop == "C04")
        return memory.count(cls) != 0;
    if (prop == "C06")
        return log.count(cls) || startsWith(cls, "wrong-") || cls == "foreign-exception" || cls == "held-value-changed";
    if (prop == "C09" && cls == "message-changed")
        return true;
    if (memory.count(cls) || log.count(cls))
        return false;
    if (printing.count(cls))
        return prop == "C07";
    if (linear.count(cls))
        return prop == "C05" || (prop == "C02" && (cls == "linear-input-changed" || cls == "linear-partial-output"));
    if (symbols.count(cls))
        return prop == "C11" || prop == "C01" || prop == "C03";
    if (keys.count(cls))
        return prop == "C13" || prop == "C11";
    return true;
}
}
