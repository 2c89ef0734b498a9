#include "exec.h"
#include <condition_variable>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <locale>
#include <memory>
#include <mutex>
#include <optional>
#include <poll.h>
#include <set>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>

#include "base.h"
#include "cache.h"
#include "env.h"
#include "model.h"
#include "name.h"
#include "number.h"
#include "tsym/tsym.h"
#include "undefined.h"

// ---------------------------------------------------------------- memo seam (hook in /repo/src/cache.h)
namespace {
int gMemoMode = 1;
int gMissPm = 0;
uint64_t gMissRng = 1;
uint64_t gLookups = 0, gForced = 0;
}
namespace tsym::detail {
bool simForceCacheMiss()
{
    ++gLookups;
    if (gMemoMode == 1)
        return false;
    if (gMemoMode == 0) {
        ++gForced;
        return true;
    }
    gMissRng = gMissRng * 6364136223846793005ull + 1442695040888963407ull;
    if (static_cast<int>((gMissRng >> 33) % 1000) < gMissPm) {
        ++gForced;
        return true;
    }
    return false;
}
}

namespace sim {
void messageRaised(int level, int line, const char* fmt);
}
// ---------------------------------------------------------------- raise seam (hook in /repo/src/logging.h)
namespace tsym::detail {
void simMessageRaised(int level, int line, const char* fmt)
{
    sim::messageRaised(level, line, fmt);
}
}

namespace sim {
using tsym::Var;

struct SimCallbackError : std::runtime_error {
    SimCallbackError() : std::runtime_error("simulated callback failure") {}
};

namespace {
    // ------------------------------------------------------------ fingerprint: own structural walk
    struct Walk {
        std::string out;
        uint64_t nodes = 0;
        bool inexact = false;  // contains a floating point number
        bool undefined = false;
        bool leakedTmp = false;
        std::set<std::string> symbols;
        template <class I> std::string integer(const I& n)
        {
            // Decimal digits of very long numbers take too long, and every operation on them costs more.
            if (n == 0)
                return "0";
            const auto bits = boost::multiprecision::msb(n < 0 ? I(-n) : n);
            if (bits < 4000)
                return n.str();
            nodes += bits / 1000;
            std::string t(n < 0 ? "-~" : "~");
            for (size_t i = n.backend().size(); i-- > 0;) {
                char buf[32];
                snprintf(buf, sizeof buf, "%016llx", static_cast<unsigned long long>(n.backend().limbs()[i]));
                t += buf;
            }
            return t;
        }
        void go(const tsym::Base& b)
        {
            ++nodes;
            const std::string type(b.typeStr());
            const auto& ops = b.operands();
            if (type == "Numeric") {
                const auto n = b.numericEval();
                if (n->isDouble()) {
                    char buf[64];
                    snprintf(buf, sizeof buf, "%a", n->toDouble());
                    out += buf;
                    inexact = true;
                } else {
                    out += integer(n->numerator());
                    if (n->denominator() != 1)
                        out += "/" + integer(n->denominator());
                }
                return;
            }
            if (type == "Undefined") {
                undefined = true;
                out += "undef";
                return;
            }
            out += '(';
            out += type;
            const auto& nm = b.name();
            if (!nm.value.empty()) {
                out += ' ';
                out += nm.value;
                if (!nm.subscript.empty())
                    out += "_" + nm.subscript;
                if (!nm.superscript.empty())
                    out += "^" + nm.superscript;
            }
            if (type == "Symbol") {
                if (b.isPositive())
                    out += '+';
                if (nm.value.find('#') != std::string::npos)
                    leakedTmp = true;
                symbols.insert(nm.value + "|" + nm.subscript + "|" + (b.isPositive() ? "+" : ""));
            }
            if (type == "Power" && ops.empty()) {
                // base and exponent are not exposed as operands
                out += ' ';
                go(*b.base());
                out += ' ';
                go(*b.exp());
            }
            for (const auto& o : ops) {
                out += ' ';
                if (o)
                    go(*o);
                else
                    out += "null";
            }
            out += ')';
        }
    };

    Walk walk(const Var& v)
    {
        Walk w;
        if (!v.get())
            w.out = "null";
        else
            w.go(*v.get());
        return w;
    }

    // A sum of small terms without powers, at most over a symbol: such expressions are cheap to work with
    // even if they have many terms.
    bool flatTerm(const tsym::Base& b)
    {
        const std::string type(b.typeStr());
        if (type == "Sum" || type == "Undefined")
            return false;
        if (type == "Power") {
            const auto& ops = b.operands();
            const std::string base(ops.front()->typeStr()), exp(ops.back()->typeStr());
            return exp == "Numeric" && (base == "Symbol" || (base == "Sum" && ops.front()->operands().size() == 2 && ops.back()->numericEval()->denominator() != 1));
        }
        if (type == "Product") {
            for (const auto& f : b.operands())
                if (!flatTerm(*f))
                    return false;
            return b.operands().size() < 4;
        }
        return true;
    }

    bool flat(const tsym::Base& b)
    {
        const std::string type(b.typeStr());
        if (type == "Product" && b.operands().size() == 2) {
            bool yes = true;
            int sums = 0;
            for (const auto& f : b.operands()) {
                const bool sum = std::string(f->typeStr()) == "Sum";
                sums += sum;
                yes = yes && (sum ? flat(*f) : flatTerm(*f));
            }
            return yes && sums == 1;
        }
        if (type != "Sum")
            return false;
        for (const auto& t : b.operands())
            if (!flatTerm(*t))
                return false;
        return true;
    }

    std::string fp(const Var& v)
    {
        return walk(v).out;
    }

    uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
    {
        for (unsigned char c : s)
            h = (h ^ c) * 1099511628211ull;
        return h;
    }

    struct Slot {
        enum Kind { None, Val, Vec, Obs } kind = None;
        std::optional<Var> v;
        std::vector<Var> vec;
        std::string obs;
        std::string print; // fingerprint at creation
        uint64_t nodes = 0;
        bool exact = true, defined = true, flat = false;
        std::set<std::string> symbols;
    };

    struct Exec;
    struct Frame;
    void settleMessages(Exec& x, const Frame& fr, const Event& e);
    Exec* gExec = nullptr;
    void onCallback(const char* kind);
    void onLog(int logger, int level, const tsym::Logger::Message& m);

    struct SimLogger : tsym::Logger {
        explicit SimLogger(int id) : id(id) {}
        ~SimLogger() override;
        void debug(const Message& m) const override { onLog(id, 0, m); }
        void info(const Message& m) const override { onLog(id, 1, m); }
        void warning(const Message& m) const override { onLog(id, 2, m); }
        void error(const Message& m) const override { onLog(id, 3, m); }
        void critical(const Message& m) const override { onLog(id, 4, m); }
        int id;
    };

    struct SilentLogger : tsym::Logger {
        void warning(const Message&) const override {}
        void error(const Message&) const override {}
        void critical(const Message&) const override {}
    };

    // ------------------------------------------------------------ faulty sink
    struct FaultBuf : std::streambuf {
        std::string got;
        Sink kind = Sink::None;
        long at = 0;
        bool fired = false;
        bool offer(char c)
        {
            if (kind != Sink::None && !(kind == Sink::Transient && fired) && static_cast<long>(got.size()) >= at) {
                fired = true;
                if (kind == Sink::Throw)
                    throw SimCallbackError{};
                return false;
            }
            got += c;
            return true;
        }
        int_type overflow(int_type c) override
        {
            HarnessScope hs;
            if (c == traits_type::eof())
                return traits_type::not_eof(c);
            return offer(static_cast<char>(c)) ? c : traits_type::eof();
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            HarnessScope hs;
            for (std::streamsize i = 0; i < n; ++i)
                if (!offer(s[i]))
                    return i;
            return n;
        }
    };

    // A process-wide locale as other parts of a program may install it.
    struct ForeignPunct : std::numpunct<char> {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
        std::string do_truename() const override { return "wahr"; }
        std::string do_falsename() const override { return "falsch"; }
    };

    // ------------------------------------------------------------ user supplied print engine
    struct TokenEngine : tsym::PrintEngine {
        std::string got;
        void t(const std::string& s)
        {
            onCallback("engine");
            HarnessScope hs;
            got += s;
            got += ';';
        }
        // Text the engine was handed stays as it is until the engine returns.
        void t(const std::string& s, std::initializer_list<std::string_view> parts)
        {
            HarnessScope hs;
            std::string before, after;
            for (const auto& p : parts)
                before.append(p).push_back('|');
            t(s);
            for (const auto& p : parts)
                after.append(p).push_back('|');
            if (after != before)
                got += "<handed " + before + " now " + after + ">";
        }
        PrintEngine& symbol(std::string_view n, std::string_view b, std::string_view p) override
        {
            HarnessScope hs;
            t("sym:" + std::string(n) + "|" + std::string(b) + "|" + std::string(p), {n, b, p});
            return *this;
        }
        PrintEngine& positiveSymbol(std::string_view n, std::string_view b, std::string_view p) override
        {
            HarnessScope hs;
            t("psym:" + std::string(n) + "|" + std::string(b) + "|" + std::string(p), {n, b, p});
            return *this;
        }
        PrintEngine& functionName(std::string_view n) override
        {
            HarnessScope hs;
            t("fct:" + std::string(n), {n});
            return *this;
        }
        PrintEngine& floatingPoint(double n) override
        {
            HarnessScope hs;
            char b[64];
            snprintf(b, sizeof b, "dbl:%a", n);
            t(b);
            return *this;
        }
        PrintEngine& integer(long long n) override
        {
            HarnessScope hs;
            t("int:" + std::to_string(n));
            return *this;
        }
        PrintEngine& integer(std::string_view n) override
        {
            HarnessScope hs;
            t("int:" + std::string(n), {n});
            return *this;
        }
#define SIM_TOKEN(name)                                                                                                \
    PrintEngine& name() override                                                                                       \
    {                                                                                                                  \
        HarnessScope hs;                                                                                               \
        t(#name);                                                                                                      \
        return *this;                                                                                                  \
    }
#define SIM_TOKENB(name)                                                                                               \
    PrintEngine& name(bool f) override                                                                                 \
    {                                                                                                                  \
        HarnessScope hs;                                                                                               \
        t(std::string(#name) + (f ? "1" : "0"));                                                                       \
        return *this;                                                                                                  \
    }
        SIM_TOKEN(undefined)
        SIM_TOKEN(plusSign)
        SIM_TOKEN(minusSign)
        SIM_TOKEN(unaryMinusSign)
        SIM_TOKEN(timesSign)
        SIM_TOKEN(divisionSign)
        SIM_TOKEN(comma)
        SIM_TOKENB(openNumerator)
        SIM_TOKENB(closeNumerator)
        SIM_TOKENB(openDenominator)
        SIM_TOKENB(closeDenominator)
        SIM_TOKEN(openScalarExponent)
        SIM_TOKEN(closeScalarExponent)
        SIM_TOKEN(openCompositeExponent)
        SIM_TOKEN(closeCompositeExponent)
        SIM_TOKEN(openSquareRoot)
        SIM_TOKEN(closeSquareRoot)
        SIM_TOKEN(openParentheses)
        SIM_TOKEN(closeParentheses)
    };

    // ------------------------------------------------------------ user supplied matrix and vector types
    bool gWriting = false;
    struct AccMatrix {
        std::vector<Var> d;
        size_t n;
        const Var& operator()(size_t i, size_t j) const
        {
            onCallback("read");
            return d[i * n + j];
        }
        Var& operator()(size_t i, size_t j)
        {
            gWriting = true;
            onCallback("write");
            return d[i * n + j];
        }
    };
    struct AccVec {
        std::vector<Var> d;
        const Var& operator()(size_t i) const
        {
            onCallback("read");
            return d[i];
        }
        Var& operator()(size_t i)
        {
            gWriting = true;
            onCallback("write");
            return d[i];
        }
    };
    // the same by subscripts, with a signed index
    struct ArrVec {
        std::vector<Var> d;
        const Var& operator[](int i) const
        {
            onCallback("read");
            return d[static_cast<size_t>(i)];
        }
        Var& operator[](int i)
        {
            gWriting = true;
            onCallback("write");
            return d[static_cast<size_t>(i)];
        }
    };
    struct ArrMatrix {
        std::vector<ArrVec> rows;
        const ArrVec& operator[](int i) const { return rows[static_cast<size_t>(i)]; }
        ArrVec& operator[](int i) { return rows[static_cast<size_t>(i)]; }
    };
    struct AccSkip {
        std::vector<bool> d;
        bool operator()(size_t i) const
        {
            onCallback("skip");
            return d[i];
        }
    };

    struct CoutCapture {
        FaultBuf buf;
        std::streambuf* old;
        CoutCapture() : old(std::cout.rdbuf(&buf)) {}
        ~CoutCapture() { std::cout.rdbuf(old); }
    };

    // ------------------------------------------------------------ caller's text buffers
    // The library is handed a view into a buffer the caller owns: what follows the view in memory is
    // arbitrary (or not mapped at all), and the buffer is scribbled over as soon as the call is over.
    struct TextBuf {
        char* mem = nullptr;
        size_t mapped = 0;
        std::string_view view;
        TextBuf(const std::string& text, unsigned flavour)
        {
            static const char* tails[] = {"", "7e5_x)+(9", "a1(", "^2*3.5", "0000", ")))", "_{z}", " + b"};
            const size_t page = 4096, need = (text.size() + 64 + page - 1) / page * page;
            mapped = need + page;
            mem = static_cast<char*>(mmap(nullptr, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            mprotect(mem + need, page, PROT_NONE);
            const std::string tail = tails[flavour % 8];
            char* at = flavour % 3 == 0 ? mem + need - text.size() : mem + need - text.size() - tail.size() - 16;
            std::memcpy(at, text.data(), text.size());
            if (flavour % 3)
                std::memcpy(at + text.size(), tail.data(), tail.size());
            used = need;
            view = std::string_view(at, text.size());
        }
        void scribble() { std::memset(mem, '#', used); }
        ~TextBuf() { munmap(mem, mapped); }
        TextBuf(const TextBuf&) = delete;
        TextBuf& operator=(const TextBuf&) = delete;
        size_t used = 0;
    };

    // ------------------------------------------------------------ event channel (shared memory)
    struct Channel {
        char* base;
        size_t cap;
        size_t* len;
        void put(const std::string& s)
        {
            if (*len + s.size() + 1 >= cap)
                return;
            std::memcpy(base + *len, s.data(), s.size());
            *len += s.size();
        }
    };

    struct Raised {
        int level, line;
        std::string fmt;
    };

    // Does the payload consist of the literal parts of the format, in order and complete?
    bool rendered(const std::string& fmt, const std::string& payload)
    {
        std::vector<std::string> parts(1);
        for (size_t i = 0; i < fmt.size(); ++i) {
            if (fmt[i] != '%') {
                parts.back() += fmt[i];
                continue;
            }
            if (i + 1 < fmt.size() && fmt[i + 1] == '%') {
                parts.back() += '%';
                ++i;
                continue;
            }
            while (++i < fmt.size() && !isalpha(static_cast<unsigned char>(fmt[i])) && fmt[i] != '%')
                ;
            parts.emplace_back();
        }
        if (payload.compare(0, parts[0].size(), parts[0]) != 0)
            return false;
        if (parts.size() == 1)
            return payload == parts[0];
        size_t at = parts[0].size();
        for (size_t k = 1; k + 1 < parts.size(); ++k) {
            const size_t f = payload.find(parts[k], at);
            if (f == std::string::npos)
                return false;
            at = f + parts[k].size();
        }
        const std::string& end = parts.back();
        return payload.size() >= at + end.size() && payload.compare(payload.size() - end.size(), end.size(), end) == 0;
    }

    // What earlier calls left behind on the stack is as arbitrary as the content of fresh heap memory.
    __attribute__((noinline)) void dirtyStack(int fill)
    {
        char below[48 * 1024];
        std::memset(below, fill, sizeof below);
        asm volatile("" : : "r"(below) : "memory");
    }

    struct Frame {
        std::vector<Raised> pending, shown; // raised but not yet delivered; raised for the default logger
        std::string lastDelivered;
        const Step* step;
        StepAlloc alloc;
        long callbacks = 0;
        bool cbFired = false;
        uint64_t logCount = 0;
        std::string logText;
        bool nested;
    };

    struct Exec {
        const Scenario& sc;
        const ExecOptions& opt;
        Channel ch;
        std::map<int, Slot> slots;
        std::map<int, std::vector<const Step*>> nestedOf; // parent -> nested steps
        std::set<int> done;
        std::vector<Frame*> stack;
        std::unique_ptr<CoutCapture> cout;
        int loggerKind = 1, loggerSerial = 0, liveLoggers = 0, current = -1;
        bool faultsOn = true;
        bool quiet = false; // do not emit events
        bool anyFault = false;
        uint64_t nestedRun = 0;
        std::unique_ptr<std::unordered_map<Var, int>> clientMap;
        std::map<std::string, int> clientModel;

        Exec(const Scenario& sc, const ExecOptions& opt, Channel ch) : sc(sc), opt(opt), ch(ch)
        {
            for (const auto& s : sc.steps)
                if (s.in >= 0)
                    nestedOf[s.in].push_back(&s);
        }

        void violation(const std::string& cls, int step, const std::string& detail)
        {
            ch.put("V " + cls + " " + std::to_string(step) + " " + encode(detail.substr(0, 2000)) + "\n");
        }

        void emit(const Event& e)
        {
            if (quiet)
                return;
            std::ostringstream o;
            o.imbue(std::locale::classic());
            o << "E " << e.id << " " << e.outcome << " " << (e.result.empty() ? "-" : encode(e.result)) << " " << e.allocs
              << " " << e.allocFired << " " << (e.sinkFired ? 1 : 0) << " " << (e.cbFired ? 1 : 0) << " " << e.callbacks
              << " " << e.logCount << " " << (e.logText.empty() ? "-" : encode(e.logText)) << " "
              << (e.coutText.empty() ? "-" : encode(e.coutText)) << " " << (e.tag.empty() ? "-" : encode(e.tag)) << " "
              << (e.nested ? 1 : 0) << " " << e.nodes << " " << e.logger << "\n";
            ch.put(o.str());
        }

        void installLogger(int kind)
        {
            loggerKind = kind;
            current = -1;
            // The logger object comes from the client, tsym takes ownership. It lives in the observed
            // heap, such that a late call of a replaced one hits poisoned memory.
            StepAlloc*& cur = currentStepAlloc();
            StepAlloc* prev = cur;
            cur = nullptr;
            SutScope ss;
            std::unique_ptr<const tsym::Logger> l;
            if (kind == 0)
                l = std::make_unique<const tsym::Logger>();
            else if (kind == 2)
                l = std::make_unique<const SilentLogger>();
            else {
                ++liveLoggers;
                l = std::make_unique<const SimLogger>(++loggerSerial);
                current = loggerSerial;
            }
            tsym::Logger::setInstance(std::move(l));
            cur = prev;
        }

        Slot* slot(int id)
        {
            auto it = slots.find(id);
            return it == slots.end() || it->second.kind == Slot::None ? nullptr : &it->second;
        }

        void recheck(const Slot& s, int id, int at, const char* when)
        {
            std::string now;
            if (s.kind == Slot::Val)
                now = fp(*s.v);
            else if (s.kind == Slot::Vec)
                for (const auto& v : s.vec)
                    now += fp(v) + ";";
            else
                return;
            if (now != s.print)
                violation("held-value-changed", at,
                  "value of step " + std::to_string(id) + " (" + when + ") was " + s.print.substr(0, 600) + " now " + now.substr(0, 600));
        }

        void recheckAll(int at, const char* when)
        {
            for (const auto& [id, s] : slots)
                recheck(s, id, at, when);
        }

        // Runs f inside the library, classifies how it ended.
        template <class F> std::string call(Frame& fr, F&& f)
        {
            StepAlloc*& cur = currentStepAlloc();
            StepAlloc* prev = cur;
            fr.alloc.baseBytes = heap.liveBytes;
            cur = &fr.alloc;
            std::string outcome = "ok";
            auto restore = [&] { cur = prev; };
            dirtyStack(opt.reference ? 0 : sc.cfg.fill);
            try {
                SutScope ss;
                f();
            } catch (const InjectedAlloc&) {
                restore();
                outcome = "exc:alloc";
            } catch (const SimCallbackError&) {
                restore();
                outcome = "exc:cb";
            } catch (const BudgetExceeded&) {
                restore();
                outcome = "budget";
            } catch (const std::ios_base::failure& e) {
                restore();
                outcome = "exc:ios";
            } catch (const std::bad_alloc& e) {
                restore();
                outcome = "exc:badalloc";
            } catch (const std::exception& e) {
                restore();
                outcome = std::string("exc:std:") + typeid(e).name() + ":" + encode(e.what());
            } catch (...) {
                restore();
                outcome = "exc:unknown";
            }
            restore();
            return outcome;
        }

        void keep(int id, Var&& v)
        {
            Slot s;
            s.kind = Slot::Val;
            Walk w = walk(v);
            s.print = w.out;
            s.nodes = w.nodes;
            s.exact = !w.inexact;
            s.defined = !w.undefined;
            s.flat = w.nodes > 45 && v.get() && flat(*v.get());
            s.symbols = std::move(w.symbols);
            if (w.leakedTmp)
                violation("tmp-leak", id, s.print);
            s.v = std::move(v);
            slots[id] = std::move(s);
        }

        void keepVec(int id, std::vector<Var>&& v)
        {
            Slot s;
            s.kind = Slot::Vec;
            for (const auto& x : v) {
                Walk w = walk(x);
                s.print += w.out + ";";
                s.nodes += w.nodes;
                if (w.leakedTmp)
                    violation("tmp-leak", id, w.out);
                s.symbols.insert(w.symbols.begin(), w.symbols.end());
            }
            s.vec = std::move(v);
            slots[id] = std::move(s);
        }

        void keepObs(int id, const std::string& o)
        {
            Slot s;
            s.kind = Slot::Obs;
            s.obs = s.print = o;
            slots[id] = std::move(s);
        }

        void runStep(const Step& st, bool nested)
        {
            if (!done.insert(st.id).second)
                return;
            Event e;
            e.id = st.id;
            e.nested = nested;
            Frame fr;
            fr.step = &st;
            fr.nested = nested;
            fr.alloc.budget = opt.budget;
            const bool withFaults = faultsOn && !opt.reference;
            if (withFaults)
                fr.alloc.fault = st.af;
            stack.push_back(&fr);
            const bool savedWriting = gWriting;
            gWriting = false;
            std::string outerText;
            if (cout) {
                // what the default logger prints; its sink can fail as well
                outerText.swap(cout->buf.got);
                if (withFaults && !nested && st.op != "print") {
                    cout->buf.kind = st.sink;
                    cout->buf.at = st.sinkAt;
                    cout->buf.fired = false;
                    std::cout.exceptions(st.sinkExc ? std::ios::badbit | std::ios::failbit : std::ios::goodbit);
                }
            }
            e.logger = loggerKind;
            runOp(st, fr, e, withFaults);
            gWriting = savedWriting;
            stack.pop_back();
            if (cout && withFaults && !nested && st.op != "print") {
                e.sinkFired = cout->buf.fired;
                cout->buf.kind = Sink::None;
                std::cout.exceptions(std::ios::goodbit);
                std::cout.clear();
            }
            e.allocs = fr.alloc.count;
            e.allocFired = fr.alloc.fired;
            e.cbFired = fr.cbFired;
            e.callbacks = fr.callbacks;
            e.logCount = fr.logCount;
            e.logText = fr.logText;
            if (cout) {
                e.coutText = cout->buf.got;
                cout->buf.got = outerText;
            }
            if (e.fired())
                anyFault = true;
            if (auto* s = slot(st.id))
                e.nodes = s->nodes;
            checkSymbols(st, e);
            settleMessages(*this, fr, e);
            emit(e);
            // nested steps whose callback never came
            if (auto it = nestedOf.find(st.id); it != nestedOf.end())
                for (const Step* n : it->second)
                    runStep(*n, nested);
            if (e.fired() || sc.cfg.holdAll)
                recheckAll(st.id, e.fired() ? "after a fault" : "after a step");
            else
                for (int a : st.args)
                    if (auto* s = slot(a))
                        recheck(*s, a, st.id, "argument");
            if (heap.corrupt || heap.writeAfterFree) {
                violation("heap-corruption", st.id,
                  "bad deletes: " + std::to_string(heap.corrupt) + ", writes after free: " + std::to_string(heap.writeAfterFree));
                heap.corrupt = heap.writeAfterFree = 0;
            }
        }

        void checkSymbols(const Step& st, const Event& e)
        {
            // No operation may bring in symbols that none of its arguments has.
            static const std::set<std::string> leaves{"sym", "psym", "parse", "varstr"};
            auto* s = slot(st.id);
            if (!s || e.outcome != "ok" || leaves.count(st.op) || s->kind == Slot::Obs)
                return;
            std::set<std::string> allowed;
            for (int a : st.args)
                if (auto* x = slot(a))
                    allowed.insert(x->symbols.begin(), x->symbols.end());
            for (const auto& n : s->symbols)
                if (!allowed.count(n)) {
                    violation("foreign-symbol", st.id, "symbol " + n + " in " + s->print.substr(0, 800));
                    return;
                }
        }

        bool valArgs(const Step& st, std::vector<const Var*>& a, Event& e, uint64_t limit)
        {
            uint64_t total = 0;
            for (int id : st.args) {
                Slot* s = slot(id);
                if (!s || s->kind != Slot::Val) {
                    e.outcome = "skip";
                    return false;
                }
                total += s->flat ? s->nodes / 5 : s->nodes;
                a.push_back(&*s->v);
            }
            if (total > limit) {
                e.outcome = "big";
                return false;
            }
            return true;
        }

        void finishVal(const Step& st, Event& e, std::optional<Var>& r)
        {
            if (e.outcome == "ok" && r) {
                keep(st.id, std::move(*r));
                e.result = slots[st.id].print;
            }
        }

        void runOp(const Step& st, Frame& fr, Event& e, bool withFaults);
        void linear(const Step& st, Frame& fr, Event& e);
        void judgeLinear(const Step& st, const std::vector<const Var*>& a, size_t dim, const std::vector<bool>& skip,
          const std::vector<Var>* result);
        void printing(const Step& st, Frame& fr, Event& e, bool withFaults);
        void control(const Step& st, Frame& fr, Event& e);
        void soak(const Step& st, Frame& fr, Event& e);
        void runAll();
        void dropAll();
        void dropClient();
        void clearCaches();
        void pairwise();
    };

    SimLogger::~SimLogger()
    {
        if (gExec)
            --gExec->liveLoggers;
    }

    void onCallback(const char*)
    {
        HarnessScope hs;
        Exec& x = *gExec;
        if (x.stack.empty())
            return;
        Frame& fr = *x.stack.back();
        ++fr.callbacks;
        // Client code run by the callback has its own allocation frame.
        StepAlloc*& cur = currentStepAlloc();
        StepAlloc* prev = cur;
        cur = nullptr;
        if (x.stack.size() < 4 && !x.opt.reference)
            if (auto it = x.nestedOf.find(fr.step->id); it != x.nestedOf.end())
                for (const Step* n : it->second)
                    if (n->cbAt == fr.callbacks && !x.done.count(n->id)) {
                        ++x.nestedRun;
                        x.runStep(*n, true);
                    }
        cur = prev;
        if (x.faultsOn && !x.opt.reference && fr.step->cbThrow == fr.callbacks) {
            fr.cbFired = true;
            throw SimCallbackError{};
        }
    }

    void matchDelivery(Exec& x, Frame& fr, int level, const tsym::Logger::Message& m)
    {
        const std::string id = std::to_string(level) + "/" + std::to_string(m.line) + " " + m.payload;
        if (fr.pending.empty()) {
            if (id == fr.lastDelivered)
                x.violation("log-delivery", fr.step->id, "raised once, delivered again: " + id.substr(0, 600));
        } else {
            const Raised& r = fr.pending.back();
            if (r.level != level || r.line != m.line || !rendered(r.fmt, m.payload))
                x.violation("log-delivery", fr.step->id, "raised " + std::to_string(r.level) + "/" + std::to_string(r.line) + " "
                    + r.fmt.substr(0, 600) + ", delivered " + id.substr(0, 600));
            fr.pending.pop_back();
        }
        fr.lastDelivered = id;
    }

    void onLog(int logger, int level, const tsym::Logger::Message& m)
    {
        {
            HarnessScope hs;
            Exec& x = *gExec;
            if (level >= 2 && !x.stack.empty())
                matchDelivery(x, *x.stack.back(), level, m);
            if (logger != x.current)
                x.violation("log-wrong-logger", x.stack.empty() ? -1 : x.stack.back()->step->id,
                  "message delivered to logger " + std::to_string(logger) + " while " + std::to_string(x.current)
                    + " is installed");
            if (!x.stack.empty()) {
                Frame& fr = *x.stack.back();
                ++fr.logCount;
                if (fr.logText.size() < 20000) {
                    fr.logText += std::to_string(level) + " ";
                    for (char c : m.payload) // a further line of the same message begins with a bar
                        fr.logText += c == '\n' ? std::string("\n|") : std::string(1, c);
                    fr.logText += "\n";
                }
            }
        }
        // The debug channel is the only one that quotes elapsed time; it is still a callback. Whatever the
        // client does meanwhile, the message it was handed is its own until it returns.
        std::unique_ptr<const tsym::Logger::Message> before;
        {
            HarnessScope hs;
            before = std::make_unique<const tsym::Logger::Message>(m);
        }
        Exec& x = *gExec;
        const int owner = x.stack.empty() ? -1 : x.stack.back()->step->id;
        auto compare = [&] {
            HarnessScope hs;
            if (before->payload != m.payload || before->ident != m.ident || before->file != m.file || before->line != m.line)
                x.violation("message-changed", owner, "the message handed to a logger was " + before->payload.substr(0, 400)
                    + " and became " + m.payload.substr(0, 400) + " while the logger used the library");
            before.reset();
        };
        try {
            onCallback("log");
        } catch (...) {
            compare();
            throw;
        }
        compare();
    }

    // What was raised has to be delivered by the time the step is over, unless a fault got in between.
    void settleMessages(Exec& x, const Frame& fr, const Event& e)
    {
        if (e.fired() || e.outcome == "budget" || e.nested)
            return;
        for (const auto& r : fr.pending)
            x.violation("log-delivery", fr.step->id, "raised but never delivered: " + std::to_string(r.level) + "/"
                + std::to_string(r.line) + " " + r.fmt.substr(0, 600));
        if (fr.shown.empty())
            return;
        std::string up, down;
        for (const auto& r : fr.shown) {
            up += r.fmt + "\n";
            down = r.fmt + "\n" + down;
        }
        if (!rendered(up, e.coutText) && !rendered(down, e.coutText))
            x.violation("log-delivery", fr.step->id, "raised " + up.substr(0, 600) + " but standard output got " + e.coutText.substr(0, 600));
    }

    uint64_t limitFor(const std::string& op)
    {
        static const std::map<std::string, uint64_t> lim{{"expand", 60}, {"simplify", 45}, {"normal", 45}, {"num", 45},
          {"den", 45}, {"pow", 60}, {"mul", 160}, {"div", 160}, {"muleq", 160}, {"diveq", 160}, {"subst", 90}, {"diff", 90}};
        auto it = lim.find(op);
        return it == lim.end() ? 260 : it->second;
    }

    Var rebuildWithPlus(const Var& v) { return +v; }

    void Exec::runOp(const Step& st, Frame& fr, Event& e, bool withFaults)
    {
        const std::string& op = st.op;
        if (isControl(op)) {
            control(st, fr, e);
            return;
        }
        if (op == "solve" || op == "inv" || op == "det") {
            linear(st, fr, e);
            return;
        }
        if (op == "print") {
            printing(st, fr, e, withFaults);
            return;
        }
        std::optional<Var> r;
        // ---- leaves
        if (op == "sym" || op == "varstr" || op == "psym" || op == "parse") {
            // scenarios of the reference kind get a plain, zero terminated buffer
            const unsigned flavour = static_cast<unsigned>(st.id) + static_cast<unsigned>(sc.cfg.index);
            std::optional<TextBuf> buf;
            std::string_view text(st.text);
            if (!opt.reference) {
                buf.emplace(st.text, flavour);
                text = buf->view;
            }
            std::optional<Var> p;
            e.outcome = call(fr, [&] {
                if (op == "parse")
                    p = tsym::parse(text);
                else if (op == "psym")
                    p.emplace(Var(text, Var::Sign::POSITIVE));
                else
                    p.emplace(Var(text));
            });
            if (buf)
                buf->scribble();
            if (opt.reference) {
                // messages and work are those of the library, the value is that of the model
                Frame model = fr;
                std::optional<Var> v;
                stack.push_back(&model);
                e.outcome = call(model, [&] {
                    if (op == "parse")
                        v = modelParse(st.text);
                    else
                        v = modelFromText(st.text, op == "psym");
                });
                stack.pop_back();
                p = v;
            }
            if (e.outcome == "ok" && !p)
                e.outcome = "none";
            return finishVal(st, e, p);
        }
        if (op == "int") {
            e.outcome = call(fr, [&] { r.emplace(Var(static_cast<int>(st.n))); });
            return finishVal(st, e, r);
        }
        if (op == "frac") {
            e.outcome = call(fr, [&] { r.emplace(Var(static_cast<int>(st.n), static_cast<int>(st.m))); });
            return finishVal(st, e, r);
        }
        if (op == "dbl") {
            const double d = static_cast<double>(st.n) / static_cast<double>(st.m ? st.m : 1);
            e.outcome = call(fr, [&] { r.emplace(Var(d)); });
            return finishVal(st, e, r);
        }
        if (op == "zero") {
            e.outcome = call(fr, [&] { r.emplace(); });
            return finishVal(st, e, r);
        }
        if (op == "pi") {
            e.outcome = call(fr, [&] { r.emplace(tsym::pi()); });
            return finishVal(st, e, r);
        }
        if (op == "e") {
            e.outcome = call(fr, [&] { r.emplace(tsym::euler()); });
            return finishVal(st, e, r);
        }
        if (op == "elem") {
            Slot* s = st.args.empty() ? nullptr : slot(st.args[0]);
            if (!s || s->kind != Slot::Vec || s->vec.empty()) {
                e.outcome = "skip";
                return;
            }
            r.emplace(s->vec[static_cast<size_t>(st.n) % s->vec.size()]);
            e.outcome = "ok";
            return finishVal(st, e, r);
        }

        std::vector<const Var*> a;
        if (!valArgs(st, a, e, limitFor(op)))
            return;
        auto need = [&](size_t n) {
            if (a.size() == n)
                return true;
            e.outcome = "skip";
            return false;
        };
        auto unary = [&](Var (*f)(const Var&)) {
            e.outcome = call(fr, [&] { r.emplace(f(*a[0])); });
            finishVal(st, e, r);
        };

        static const std::map<std::string, Var (*)(const Var&)> un{{"sqrt", &tsym::sqrt}, {"log", &tsym::log},
          {"sin", &tsym::sin}, {"cos", &tsym::cos}, {"tan", &tsym::tan}, {"asin", &tsym::asin}, {"acos", &tsym::acos},
          {"atan", &tsym::atan}, {"expand", &tsym::expand}, {"simplify", &tsym::simplify}, {"num", &tsym::numerator},
          {"den", &tsym::denominator}, {"plus", &rebuildWithPlus}};
        if (auto it = un.find(op); it != un.end()) {
            if (need(1))
                unary(it->second);
            return;
        }
        if (op == "normal") {
            if (need(1)) {
                e.outcome = call(fr, [&] { r.emplace(a[0]->get()->normal()); });
                finishVal(st, e, r);
            }
            return;
        }
        if (op == "neg") {
            if (need(1)) {
                e.outcome = call(fr, [&] { r.emplace(-*a[0]); });
                finishVal(st, e, r);
            }
            return;
        }
        if (op == "copy") {
            if (need(1)) {
                e.outcome = call(fr, [&] {
                    r.emplace(*a[0]);
                    Var other(17);
                    other = *r;
                    r = std::move(other);
                });
                finishVal(st, e, r);
            }
            return;
        }
        if (op == "get") {
            if (!need(1))
                return;
            std::vector<Var> ops;
            e.outcome = call(fr, [&] { ops = tsym::operands(*a[0]); });
            if (e.outcome == "ok") {
                if (ops.empty())
                    r.emplace(*a[0]);
                else
                    r.emplace(ops[static_cast<size_t>(st.n) % ops.size()]);
            }
            return finishVal(st, e, r);
        }

        using Bin = std::function<Var(const Var&, const Var&)>;
        static const std::map<std::string, Bin> bin{{"add", [](auto& x, auto& y) { return x + y; }},
          {"sub", [](auto& x, auto& y) { return x - y; }}, {"mul", [](auto& x, auto& y) { return x * y; }},
          {"div", [](auto& x, auto& y) { return x / y; }}, {"pow", [](auto& x, auto& y) { return tsym::pow(x, y); }},
          {"atan2", [](auto& x, auto& y) { return tsym::atan2(x, y); }},
          {"diff", [](auto& x, auto& y) { return tsym::diff(x, y); }}};
        if (auto it = bin.find(op); it != bin.end()) {
            if (need(2)) {
                e.outcome = call(fr, [&] { r.emplace(it->second(*a[0], *a[1])); });
                finishVal(st, e, r);
            }
            return;
        }
        if (op == "addeq" || op == "subeq" || op == "muleq" || op == "diveq") {
            if (!need(2))
                return;
            Var target(*a[0]);
            // x += x must use one and the same object on both sides; what it means is defined by two objects
            const Var& rhs = st.args[0] == st.args[1] && !opt.reference ? target : *a[1];
            const std::string before = fp(target);
            e.outcome = call(fr, [&] {
                if (op == "addeq")
                    target += rhs;
                else if (op == "subeq")
                    target -= rhs;
                else if (op == "muleq")
                    target *= rhs;
                else
                    target /= rhs;
            });
            if (e.outcome != "ok") {
                const std::string after = fp(target);
                if (after != before)
                    violation("target-changed", st.id, op + " failed with " + e.outcome + " but its target went from "
                        + before.substr(0, 600) + " to " + after.substr(0, 600));
            }
            r.emplace(std::move(target));
            return finishVal(st, e, r);
        }
        if (op == "subst") {
            if (need(3)) {
                e.outcome = call(fr, [&] { r.emplace(tsym::subst(*a[0], *a[1], *a[2])); });
                finishVal(st, e, r);
            }
            return;
        }

        // ---- observations
        std::string obs;
        auto observe = [&](auto&& f) {
            e.outcome = call(fr, f);
            if (e.outcome == "ok") {
                keepObs(st.id, obs);
                e.result = obs;
            }
        };
        if (op == "query") {
            if (!need(1))
                return;
            bool p = false, n = false;
            unsigned c = 0;
            Var::Type t{};
            int i = 0;
            double d = 0;
            std::string nm;
            e.outcome = call(fr, [&] {
                switch (st.n) {
                    case 0: p = tsym::isPositive(*a[0]); break;
                    case 1: n = tsym::isNegative(*a[0]); break;
                    case 2: c = tsym::complexity(*a[0]); break;
                    case 3: t = a[0]->type(); break;
                    case 4: nm = tsym::name(*a[0]); break;
                    case 5: i = static_cast<int>(*a[0]); break;
                    case 6: d = static_cast<double>(*a[0]); break;
                    default: p = *a[0] == *a[0]; break;
                }
            });
            if (e.outcome == "ok") {
                HarnessScope hs;
                char b[200];
                snprintf(b, sizeof b, "q%ld:%d:%d:%u:%d:%d:%a:", st.n, p, n, c, static_cast<int>(t), i, d);
                obs = b + std::string(nm.c_str(), nm.size());
                keepObs(st.id, obs);
                e.result = obs;
            }
            return;
        }
        if (op == "typestr") {
            if (!need(1))
                return;
            FaultBuf buf;
            std::ostream os(&buf);
            observe([&] {
                os << a[0]->type();
                HarnessScope hs;
                obs = buf.got;
            });
            return;
        }
        if (op == "hasq") {
            if (!need(2))
                return;
            bool h = false;
            e.outcome = call(fr, [&] { h = tsym::has(*a[0], *a[1]); });
            if (e.outcome == "ok") {
                keepObs(st.id, h ? "has" : "hasnot");
                e.result = h ? "has" : "hasnot";
            }
            return;
        }
        if (op == "eq") {
            if (!need(2))
                return;
            bool h = false, g = false;
            e.outcome = call(fr, [&] {
                h = *a[0] == *a[1];
                g = *a[0] != *a[1];
            });
            if (e.outcome == "ok") {
                obs = std::string(h ? "eq" : "ne") + (g ? "/ne" : "/eq");
                keepObs(st.id, obs);
                e.result = obs;
            }
            return;
        }
        if (op == "operands" || op == "symbols") {
            if (!need(1))
                return;
            std::vector<Var> v;
            e.outcome = call(fr, [&] { v = op == "operands" ? tsym::operands(*a[0]) : tsym::collectSymbols(*a[0]); });
            if (e.outcome == "ok") {
                keepVec(st.id, std::move(v));
                e.result = slots[st.id].print;
                if (e.result.empty())
                    e.result = "[]";
            }
            return;
        }
        if (op == "hash") {
            // Only meaningful inside one process; equality of hashes is checked pairwise at the end.
            if (!need(1))
                return;
            size_t h = 0;
            e.outcome = call(fr, [&] { h = std::hash<Var>{}(*a[0]); });
            (void)h;
            if (e.outcome == "ok") {
                keepObs(st.id, "hashed");
                e.result = "hashed";
            }
            return;
        }
        e.outcome = "skip";
    }

    void Exec::linear(const Step& st, Frame& fr, Event& e)
    {
        // n: dimension + 10*variant ; m: skip mask + 100*algorithm
        const size_t dim = static_cast<size_t>(st.n % 10);
        // the reference uses one container type and never aliases
        const int variant = opt.reference ? 0 : static_cast<int>(st.n / 10);
        const unsigned mask = static_cast<unsigned>(st.m % 100);
        const tsym::Algo algo = st.m / 100 ? tsym::Algo::Gauss : tsym::Algo::GaussLCPivot;
        const bool isSolve = st.op == "solve";
        std::vector<const Var*> a;
        if (!valArgs(st, a, e, 60))
            return;
        if (a.size() != dim * dim + (isSolve ? dim : 0) || dim == 0) {
            e.outcome = "skip";
            return;
        }
        std::vector<bool> skip(dim);
        bool anySkip = false;
        for (size_t i = 0; i < dim; ++i) {
            skip[i] = (mask >> i) & 1;
            anySkip = anySkip || skip[i];
        }
        AccMatrix A;
        A.n = dim;
        AccVec b, x;
        for (size_t i = 0; i < dim * dim; ++i)
            A.d.push_back(*a[i]);
        if (isSolve)
            for (size_t i = 0; i < dim; ++i)
                b.d.push_back(*a[dim * dim + i]);
        // what the client has in its solution before: nothing of it may matter
        const Var undefined{tsym::Undefined::create()};
        uint64_t content = (static_cast<uint64_t>(st.id) + 1) * 0x9E3779B97F4A7C15ull + sc.cfg.index;
        for (size_t i = 0; i < dim; ++i) {
            content = content * 6364136223846793005ull + 1442695040888963407ull;
            switch (opt.reference ? 0 : (content >> 40) % 8) {
                case 1: x.d.push_back(Var()); break;
                case 2: x.d.push_back(Var(1)); break;
                case 3: x.d.push_back(Var("zq")); break;
                case 4: x.d.push_back(*a[(content >> 20) % a.size()]); break;
                case 5: x.d.push_back(undefined); break;
                case 6: x.d.push_back(*a[isSolve ? dim * dim + i : i * dim + i]); break;
                default: x.d.push_back(Var(static_cast<int>(70001 + i)));
            }
        }
        const std::vector<Var> firstX = x.d;
        ArrMatrix arrA;
        for (size_t i = 0; i < dim; ++i) {
            arrA.rows.emplace_back();
            for (size_t j = 0; j < dim; ++j)
                arrA.rows.back().d.push_back(A.d[i * dim + j]);
        }
        const ArrMatrix& cArrA = arrA;
        ArrVec arrB{b.d}, arrX{x.d};
        const ArrVec& cArrB = arrB;
        const int idim = static_cast<int>(dim);
        const long ldim = static_cast<long>(dim);
        const std::vector<int> intSkip(skip.begin(), skip.end());
        std::vector<std::vector<Var>> plainA(dim);
        for (size_t i = 0; i < dim; ++i)
            for (size_t j = 0; j < dim; ++j)
                plainA[i].push_back(A.d[i * dim + j]);
        std::vector<Var> plainB = b.d, plainX = x.d;
        AccSkip accSkip{skip};
        auto fps = [](const std::vector<Var>& v) {
            std::string r;
            for (const auto& y : v)
                r += fp(y) + ";";
            return r;
        };
        auto flat = [&](const std::vector<std::vector<Var>>& m) {
            std::vector<Var> r;
            for (const auto& row : m)
                r.insert(r.end(), row.begin(), row.end());
            return r;
        };
        const std::string beforeA = fps(A.d), beforeB = fps(b.d), beforeX = fps(x.d);
        std::optional<Var> det;
        const AccMatrix& cA = A;
        const AccVec& cb = b;
        // variant 0: accessor classes, 1: nested std::vector, 2: solution written over the right hand side
        e.outcome = call(fr, [&] {
            if (isSolve) {
                if (variant == 1) {
                    if (anySkip)
                        tsym::solve(plainA, plainB, plainX, skip, dim, algo);
                    else
                        tsym::solve(plainA, plainB, plainX, dim, algo);
                } else if (variant == 2) {
                    if (anySkip)
                        tsym::solve(cA, cb, b, skip, dim, algo);
                    else
                        tsym::solve(cA, cb, b, dim, algo);
                } else if (variant == 3) {
                    if (anySkip)
                        tsym::solve(cArrA, cArrB, arrX, skip, idim, algo);
                    else
                        tsym::solve(cArrA, cArrB, arrX, idim, algo);
                } else if (variant == 4) {
                    if (anySkip)
                        tsym::solve(cA, plainB, x, intSkip, ldim, algo);
                    else
                        tsym::solve(cA, plainB, x, ldim, algo);
                } else if (variant == 5) { // plain vectors, solution over the right hand side, skip field also if it skips nothing
                    tsym::solve(plainA, plainB, plainB, skip, static_cast<unsigned>(dim), algo);
                } else if (variant == 6) {
                    if (anySkip)
                        tsym::solve(cArrA, cArrB, arrB, accSkip, idim, algo);
                    else
                        tsym::solve(cArrA, cArrB, arrB, idim, algo);
                } else {
                    if (anySkip)
                        tsym::solve(cA, cb, x, accSkip, dim, algo);
                    else
                        tsym::solve(cA, cb, x, dim, algo);
                }
            } else if (st.op == "inv") {
                if (variant == 1) {
                    if (anySkip)
                        tsym::invert(plainA, skip, dim, algo);
                    else
                        tsym::invert(plainA, dim, algo);
                } else if (variant == 3) {
                    if (anySkip)
                        tsym::invert(arrA, intSkip, idim, algo);
                    else
                        tsym::invert(arrA, idim, algo);
                } else if (variant == 4)
                    tsym::invert(plainA, intSkip, ldim, algo);
                else if (variant == 5)
                    tsym::invert(plainA, accSkip, static_cast<unsigned>(dim), algo);
                else if (variant == 6)
                    tsym::invert(arrA, skip, idim, algo);
                else {
                    if (anySkip)
                        tsym::invert(A, accSkip, dim, algo);
                    else
                        tsym::invert(A, dim, algo);
                }
            } else {
                if (variant == 1)
                    det.emplace(anySkip ? tsym::determinant(plainA, skip, dim, algo) : tsym::determinant(plainA, dim, algo));
                else if (variant == 3)
                    det.emplace(anySkip ? tsym::determinant(cArrA, accSkip, idim, algo) : tsym::determinant(cArrA, idim, algo));
                else if (variant == 4)
                    det.emplace(tsym::determinant(plainA, intSkip, ldim, algo));
                else if (variant == 5)
                    det.emplace(tsym::determinant(plainA, skip, static_cast<unsigned>(dim), algo));
                else if (variant == 6)
                    det.emplace(tsym::determinant(cArrA, skip, idim, algo));
                else
                    det.emplace(anySkip ? tsym::determinant(cA, accSkip, dim, algo) : tsym::determinant(cA, dim, algo));
            }
        });
        std::vector<Var> flatArr;
        for (const auto& row : arrA.rows)
            flatArr.insert(flatArr.end(), row.d.begin(), row.d.end());
        const bool over = isSolve && (variant == 2 || variant == 5 || variant == 6);
        const bool plain = variant == 1 || variant == 5 || (variant == 4 && !isSolve);
        const std::vector<Var> nowA = plain ? flat(plainA) : variant == 3 || variant == 6 ? flatArr : A.d;
        const std::vector<Var> nowB = variant == 1 || variant == 4 || variant == 5 ? plainB : variant == 3 || variant == 6 ? arrB.d : b.d;
        const std::vector<Var> nowX = over ? nowB : variant == 1 ? plainX : variant == 3 ? arrX.d : x.d;
        const std::string initialX = over ? beforeB : beforeX;
        const bool ok = e.outcome == "ok";
        std::vector<Var> result;
        if (isSolve) {
            if (fps(nowA) != beforeA)
                violation("linear-input-changed", st.id, "coefficients changed by solve, outcome " + e.outcome);
            if (!over && fps(nowB) != beforeB)
                violation("linear-input-changed", st.id, "right hand side changed by solve, outcome " + e.outcome);
            for (size_t i = 0; i < dim; ++i)
                if (skip[i] && fp(nowX[i]) != fp(over ? *a[dim * dim + i] : firstX[i]))
                    violation("linear-skipped-written", st.id, "skipped entry " + std::to_string(i) + " written");
            result = nowX;
        } else if (st.op == "inv") {
            for (size_t i = 0; i < dim; ++i)
                for (size_t j = 0; j < dim; ++j)
                    if ((skip[i] || skip[j]) && fp(nowA[i * dim + j]) != fp(*a[i * dim + j]))
                        violation("linear-skipped-written", st.id, "skipped entry written by invert");
            result = nowA;
        } else {
            if (fps(nowA) != beforeA)
                violation("linear-input-changed", st.id, "matrix changed by determinant, outcome " + e.outcome);
            if (det)
                result.push_back(*det);
        }
        if (!ok) {
            const std::string initial = isSolve ? initialX : st.op == "inv" ? beforeA : "";
            const std::string now = fps(result);
            if (st.op != "det" && now != initial && !(fr.cbFired && gWriting))
                violation("linear-partial-output", st.id, st.op + " ended with " + e.outcome + " but its output went from "
                    + initial.substr(0, 500) + " to " + now.substr(0, 500));
            std::string init2 = initial, now2 = now;
            if (isSolve) {
                auto neutral = [&](const std::string& t) {
                    std::string r;
                    size_t i = 0, from = 0;
                    for (size_t k = 0; k < t.size(); ++k)
                        if (t[k] == ';') {
                            r += i < dim && skip[i] ? "0;" : t.substr(from, k + 1 - from);
                            from = k + 1;
                            ++i;
                        }
                    return r;
                };
                init2 = neutral(initial);
                now2 = neutral(now);
            }
            e.tag = std::string(gWriting ? "writing " : "reading ") + init2 + "\n" + now2;
            if (!fr.alloc.fired && !fr.cbFired && e.outcome.compare(0, 7, "exc:std") == 0)
                judgeLinear(st, a, dim, skip, nullptr);
            return;
        }
        if (isSolve)
            for (size_t i = 0; i < dim; ++i)
                if (skip[i])
                    result[i] = Var(0); // whatever the client had there
        judgeLinear(st, a, dim, skip, &result);
        keepVec(st.id, std::move(result));
        e.result = slots[st.id].print;
    }

    // Modular arithmetic says whether the (active part of the) system is singular and whether the result is right.
    void Exec::judgeLinear(const Step& st, const std::vector<const Var*>& a, size_t dim, const std::vector<bool>& skip,
      const std::vector<Var>* result)
    {
        std::vector<size_t> act;
        for (size_t i = 0; i < dim; ++i)
            if (!skip[i])
                act.push_back(i);
        const size_t n = act.size();
        if (n == 0)
            return;
        std::vector<Var> m, b, x;
        for (size_t i : act)
            for (size_t j : act)
                m.push_back(*a[i * dim + j]);
        LinearVerdict v;
        size_t columns = 1;
        if (st.op == "det")
            v = modelDeterminant(m, result ? &(*result)[0] : nullptr, n);
        else {
            if (st.op == "inv") {
                columns = n;
                for (size_t i = 0; i < n; ++i)
                    for (size_t j = 0; j < n; ++j)
                        b.push_back(Var(i == j ? 1 : 0));
                if (result)
                    for (size_t i : act)
                        for (size_t j : act)
                            x.push_back((*result)[i * dim + j]);
            } else
                for (size_t i : act) {
                    b.push_back(*a[dim * dim + i]);
                    if (result)
                        x.push_back((*result)[i]);
                }
            v = modelSolve(m, b, result ? &x : nullptr, n, columns);
        }
        if (result && st.op != "det" && v.kind == LinearVerdict::Singular)
            violation("linear-singular-accepted", st.id, st.op + " gave a result for a singular matrix");
        if (result && v.solutionChecked && !v.solutionRight)
            violation("linear-wrong-solution", st.id, st.op + ": the result does not solve the system");
        if (!result && v.kind == LinearVerdict::Regular)
            violation("linear-regular-refused", st.id, st.op + " refused a regular matrix");
    }

    void Exec::printing(const Step& st, Frame& fr, Event& e, bool withFaults)
    {
        // n: 0 operator<<, 1 ASCII engine, 2 unicode engine, 3 client engine, 4 string stream, 5 via type output
        std::vector<const Var*> a;
        if (!valArgs(st, a, e, 400))
            return;
        if (a.size() != 1) {
            e.outcome = "skip";
            return;
        }
        // the client's formatting state is its own business
        auto format = [&](std::ostream& os) {
            if (st.m == 1)
                os.setf(std::ios::showbase | std::ios::showpos | std::ios::uppercase);
            else if (st.m == 2) {
                os.setf(std::ios::fixed | std::ios::left);
                os.precision(3);
                os.fill('*');
            } else if (st.m == 3) {
                os.setf(std::ios::scientific | std::ios::internal | std::ios::boolalpha);
                os.precision(12);
            }
        };
        if (st.n == 3) {
            TokenEngine eng;
            e.outcome = call(fr, [&] { tsym::print(eng, *a[0]); });
            e.tag = eng.got;
            if (e.outcome == "ok") {
                keepObs(st.id, eng.got);
                e.result = eng.got;
            }
            return;
        }
        if (st.n == 4) {
            std::ostringstream os;
            os.imbue(std::locale::classic());
            format(os);
            e.outcome = call(fr, [&] { os << *a[0]; });
            std::string got = os.str();
            const bool bad = !os;
            e.tag = (bad ? "bad " : "good ") + got;
            if (e.outcome == "ok" && !bad) {
                keepObs(st.id, got);
                e.result = got;
            } else if (e.outcome == "ok")
                e.outcome = "streambad";
            // the string stream's buffer was allocated inside the library call
            return;
        }
        FaultBuf buf;
        if (withFaults) {
            buf.kind = st.sink;
            buf.at = st.sinkAt;
        }
        std::ostream os(&buf);
        os.imbue(std::locale::classic());
        if (st.sinkExc && withFaults)
            os.exceptions(std::ios::badbit | std::ios::failbit);
        format(os);
        const auto flags = os.flags();
        const auto prec = os.precision();
        const auto fill = os.fill();
        e.outcome = call(fr, [&] {
            if (st.n == 1) {
                tsym::PlaintextPrintEngine eng(os, tsym::PlaintextPrintEngine::CharSet::ASCII);
                tsym::print(eng, *a[0]);
            } else if (st.n == 2) {
                tsym::PlaintextPrintEngine eng(os, tsym::PlaintextPrintEngine::CharSet::UNICODE);
                tsym::print(eng, *a[0]);
            } else
                os << *a[0];
        });
        e.sinkFired = buf.fired;
        if (os.flags() != flags || os.precision() != prec || os.fill() != fill)
            violation("stream-state-changed", st.id, "formatting state of the stream changed by printing");
        const bool bad = !os;
        e.tag = (bad ? "bad " : "good ") + buf.got;
        if (e.outcome == "ok" && !bad) {
            keepObs(st.id, buf.got);
            e.result = buf.got;
        } else if (e.outcome == "ok")
            e.outcome = "streambad";
    }

    void Exec::clearCaches()
    {
        // Dropping the memo tables is the library's own (internal) operation.
        StepAlloc*& cur = currentStepAlloc();
        StepAlloc* prev = cur;
        cur = nullptr;
        {
            SutScope ss;
            tsym::clearRegisteredCaches();
        }
        cur = prev;
    }

    // A long stretch of ordinary work of one kind, as a long-lived process sees it. n: how many, m: kind + 100*seed
    // (+50: each one runs out of memory somewhere). Its results are not judged, what comes after it is.
    void Exec::soak(const Step& st, Frame& fr, Event& e)
    {
        const int kind = static_cast<int>(st.m % 50);
        const bool storm = (st.m / 50) % 2 && faultsOn;
        uint64_t rng = static_cast<uint64_t>(st.m / 100) * 0x9E3779B97F4A7C15ull + 12345;
        auto below = [&](uint64_t n) {
            rng = rng * 6364136223846793005ull + 1442695040888963407ull;
            return static_cast<long>((rng >> 33) % n);
        };
        auto num = [&](long a, long b) { return Var(static_cast<int>(a + below(static_cast<uint64_t>(b - a + 1)))); };
        auto frac = [&](long a, long b) {
            const long n = a + below(static_cast<uint64_t>(b - a + 1));
            return Var(static_cast<int>(n), static_cast<int>(1 + below(9)));
        };
        static const char* pool[] = {"a", "b", "c", "d", "x", "y"};
        auto sym = [&] { return Var(std::string_view(pool[below(6)])); };
        auto fct = [&](const Var& v) {
            switch (below(6)) {
                case 0: return tsym::sin(v);
                case 1: return tsym::cos(v);
                case 2: return tsym::log(v);
                case 3: return tsym::sqrt(v);
                case 4: return tsym::atan(v);
                default: return tsym::tan(v);
            }
        };
        auto name = [&](long i) {
            std::string t = pool[below(6)];
            t += std::string(static_cast<size_t>(below(3) ? 0 : below(24)), static_cast<char>('a' + below(26)));
            t += std::to_string(i);
            if (below(3) == 0)
                t += "_{" + std::to_string(below(2000)) + "}";
            return t;
        };
        std::function<Var(int)> build = [&](int depth) -> Var {
            if (depth == 0)
                return below(4) ? (below(5) ? sym() : Var(std::string_view(pool[below(6)]), Var::Sign::POSITIVE)) : below(2) ? num(-3, 9) : frac(1, 9);
            switch (below(6)) {
                case 0: {
                    Var v = build(depth - 1);
                    for (long k = 1 + below(4); k > 0; --k)
                        v += build(depth - 1);
                    return v;
                }
                case 1:
                case 2: {
                    Var v = build(depth - 1);
                    for (long k = 1 + below(5); k > 0; --k)
                        v *= below(3) ? build(depth - 1) : tsym::pow(sym(), frac(-4, 4));
                    return v;
                }
                case 3: return tsym::pow(below(2) ? sym() : build(depth - 1), below(2) ? sym() + sym() : below(2) ? num(-3, 3) : frac(1, 5));
                case 4: return tsym::atan2(build(depth - 1), build(depth - 1));
                default: return fct(build(depth - 1));
            }
        };
        std::map<std::string, size_t> hashes;
        std::map<std::string, std::string> results;
        std::vector<std::pair<std::string, Var>> recent;
        // What a client can learn about a value: the outcome of one operation that is the same all along.
        const long todo = (st.m / 100) % 9;
        const std::string_view fixed(pool[(st.m / 100) % 6]);
        auto apply = [&](const Var& v) -> std::optional<Var> {
            switch (todo) {
                case 0: return tsym::subst(v, Var(fixed), Var("zq") + Var(1));
                case 1: return tsym::diff(v, Var(fixed));
                case 2: return tsym::expand(v);
                case 3: return tsym::sin(v) - v;
                case 4: return tsym::pow(v, Var(fixed));
                case 5: return v * Var(fixed);
                case 6: return Var(static_cast<int>(tsym::complexity(v) % 100000u) + 200000 * tsym::isPositive(v) + 400000 * tsym::isNegative(v) + 800000 * tsym::has(v, Var(fixed)));
                case 7: {
                    Var sum(0);
                    for (const Var& s : tsym::collectSymbols(v))
                        sum = sum * Var(2) + s;
                    return sum;
                }
                default: return std::nullopt;
            }
        };
        auto outcomeOf = [&](const std::optional<Var>& v) {
            HarnessScope hs;
            StepAlloc*& cur = currentStepAlloc();
            StepAlloc* prev = cur;
            cur = nullptr;
            std::string r = v ? fp(*v) : std::string();
            cur = prev;
            return r;
        };
        // Builds a value twice, compares the two and what was seen before, and lets most of them go.
        auto churn = [&](long i) {
            const int depth = 1 + static_cast<int>(i % 2);
            const uint64_t again = rng;
            std::optional<Var> first, second;
            first.emplace(build(depth));
            const size_t h1 = std::hash<Var>{}(*first);
            const std::string r1 = outcomeOf(apply(*first));
            if (i % 3 == 0)
                first.reset();
            rng = again;
            second.emplace(build(depth));
            const size_t h2 = std::hash<Var>{}(*second);
            const bool same = !first || *first == *second;
            const std::string r2 = outcomeOf(apply(*second));
            std::string f1, f2;
            {
                HarnessScope hs;
                StepAlloc*& cur = currentStepAlloc();
                StepAlloc* prev = cur;
                cur = nullptr;
                const Walk w = walk(*second);
                f2 = w.out;
                f1 = first ? fp(*first) : f2;
                const auto known = hashes.emplace(f2, h2);
                if (f1 != f2)
                    violation("wrong-result", st.id, "the same expression gave " + f1.substr(0, 500) + " and then " + f2.substr(0, 500));
                else if (!w.undefined && !same)
                    violation("equality", st.id, "two instances of " + f2.substr(0, 500) + " are different");
                else if (!w.inexact && (h1 != h2 || known.first->second != h2))
                    violation("hash", st.id, "instances of " + f2.substr(0, 500) + " have different hashes");
                else if (r1 != r2 || results.emplace(f2, r2).first->second != r2)
                    violation("wrong-result", st.id, "an operation on " + f2.substr(0, 400) + " gave " + r1.substr(0, 400) + " and then " + r2.substr(0, 400));
                cur = prev;
                if (w.undefined || w.inexact)
                    return;
            }
            for (const auto& [f, v] : recent)
                if ((v == *second) != (f == f2)) {
                    HarnessScope hs;
                    violation("equality", st.id, f.substr(0, 300) + " and " + f2.substr(0, 300) + (f == f2 ? " are different" : " are equal"));
                }
            HarnessScope hs;
            StepAlloc*& cur = currentStepAlloc();
            StepAlloc* prev = cur;
            cur = nullptr;
            if (i % 4 == 0)
                recent.emplace_back(f2, *second);
            if (recent.size() > 6)
                recent.erase(recent.begin() + below(6));
            cur = prev;
        };
        auto one = [&](long i) {
            switch (kind) {
                case 18:
                case 19: return churn(i);
                case 0: return (void)(tsym::sqrt(num(2, 1100)) * tsym::pow(num(2, 1100), frac(-4, 4)));
                case 1: return (void)(fct(tsym::pi() * frac(-30, 30)) + tsym::sin(tsym::pi() * frac(0, 24)));
                case 2: return (void)(tsym::log(num(1, 2000)) + tsym::log(frac(1, 900)));
                case 3: {
                    const std::string t = name(i);
                    return below(3) ? (void)Var(t) : (void)Var(t, Var::Sign::POSITIVE);
                }
                case 4: {
                    std::string t = std::to_string(below(100)) + "*" + name(i) + "^" + std::to_string(below(5)) + "+";
                    t += below(4) ? "sin(" + name(i) + ")" : below(2) ? "(" : "1.5";
                    return (void)tsym::parse(t);
                }
                case 5: {
                    const Var p = sym(), q = sym();
                    return (void)Var(((fct(p) - q) / (fct(q) + num(1, 9))).get()->normal());
                }
                case 6: return (void)tsym::simplify((sym() * sym() + num(1, 50) * sym()) / (sym() + num(1, 50)));
                case 7: return (void)tsym::expand(tsym::pow(sym() + num(1, 60), Var(2)) * (sym() + sym()));
                case 8:
                    switch (below(5)) {
                        case 0: return (void)(sym() / Var(0));
                        case 1: return (void)tsym::log(num(-3, 0));
                        case 2: return (void)tsym::diff(sym(), num(1, 9));
                        case 3: return (void)tsym::asin(num(2, 9));
                        default: return (void)tsym::pow(num(-9, 0), Var(-3, 2));
                    }
                case 9: {
                    const Var v = tsym::pow(num(2, 40), num(8, 50)), w = tsym::pow(num(2, 40), num(8, 30));
                    return (void)(v / w + w / (v + num(1, 5)));
                }
                case 10: {
                    const Var v = sym() + num(1, 99) * sym();
                    return (void)std::hash<Var>{}(v * fct(v));
                }
                case 11: {
                    std::ostringstream os;
                    os << (sym() + num(1, 9)) / (fct(sym()) + frac(1, 9));
                    return;
                }
                case 12: {
                    std::vector<std::vector<Var>> m{{sym(), num(1, 9)}, {num(0, 4), sym()}};
                    std::vector<Var> b{num(1, 5), sym()}, x(2);
                    try {
                        tsym::solve(m, b, x, size_t(2));
                    } catch (const std::invalid_argument&) {
                    }
                    return;
                }
                case 13: {
                    const Var p = sym();
                    return (void)tsym::subst(tsym::diff(fct(p * num(1, 60)) * p, p), p, sym() + num(1, 9));
                }
                case 14: return (void)(tsym::numerator(sym() / (sym() + num(1, 90))) + tsym::denominator(fct(sym()) / num(1, 90) + sym() / sym()));
                case 15: {
                    const Var v = tsym::sqrt(num(2, 200)) + tsym::log(num(2, 50)) * tsym::pi();
                    return (void)(static_cast<double>(v) + static_cast<double>(v * Var(0.375)));
                }
                case 16: {
                    const Var v = (sym() + sym()) * fct(sym());
                    return (void)(tsym::collectSymbols(v).size() + tsym::complexity(v) + tsym::has(v, sym()) + tsym::isPositive(v));
                }
                default: {
                    Var v(sym());
                    v += num(1, 9);
                    v *= v;
                    v /= sym() + num(1, 9);
                    v -= v;
                    return;
                }
            }
        };
        for (long i = st.sink == Sink::None ? st.sinkAt : 0; i < st.n; ++i) { // sinkAt: see diesAnyway() in main.cpp
            Frame inner(fr);
            inner.alloc = StepAlloc{};
            inner.alloc.budget = fr.alloc.budget;
            if (storm) {
                inner.alloc.fault.nth = 1 + static_cast<uint64_t>(below(below(3) ? 30 : 300));
                inner.alloc.fault.burst = below(4) ? 1 : ~0ull;
            } else if (faultsOn && !opt.reference) {
                inner.alloc.fault = fr.alloc.fault;
                if (fr.alloc.fault.nth && fr.alloc.count >= fr.alloc.fault.nth)
                    inner.alloc.fault = {};
                else if (fr.alloc.fault.nth)
                    inner.alloc.fault.nth -= fr.alloc.count;
            }
            // what one of them does must not depend on where an earlier one ended
            rng = (static_cast<uint64_t>(st.m / 100) * 4099 + static_cast<uint64_t>(i) + 1) * 0x9E3779B97F4A7C15ull;
            const std::string o = call(inner, [&] { one(i); });
            fr.alloc.count += inner.alloc.count;
            fr.alloc.fired += inner.alloc.fired;
            const bool memory = o == "exc:alloc" || o == "exc:badalloc";
            if (o != "ok" && !(storm && memory)) {
                e.outcome = o;
                return;
            }
            if (opt.budget && fr.alloc.count > opt.budget) {
                e.outcome = "budget";
                return;
            }
        }
    }

    void Exec::control(const Step& st, Frame& fr, Event& e)
    {
        const std::string& op = st.op;
        e.outcome = "ok";
        if (opt.reference)
            return;
        if (op == "clear")
            clearCaches();
        else if (op == "soak")
            soak(st, fr, e);
        else if (op == "memo") {
            gMemoMode = static_cast<int>(st.n);
            gMissPm = static_cast<int>(st.m);
        } else if (op == "setlogger")
            installLogger(static_cast<int>(st.n));
        else if (op == "clockjump")
            clockJump(st.n * 1000000ll);
        else if (op == "drop") {
            for (int a : st.args)
                if (slot(a)) {
                    Slot tmp = std::move(slots[a]);
                    slots.erase(a);
                    std::string o = call(fr, [&] {
                        tmp.v.reset();
                        tmp.vec.clear();
                        tmp.vec.shrink_to_fit();
                    });
                    if (o != "ok")
                        violation("drop-failed", st.id, o);
                }
        } else if (op == "mapput") {
            Slot* s = slot(st.args.at(0));
            if (!s || s->kind != Slot::Val || !s->exact || !s->defined) {
                e.outcome = "skip";
                return;
            }
            if (!clientMap)
                clientMap = std::make_unique<std::unordered_map<Var, int>>();
            e.outcome = call(fr, [&] { (*clientMap)[*s->v] = st.id; });
            if (e.outcome == "ok")
                clientModel[s->print] = st.id;
        } else if (op == "mapget") {
            Slot* s = slot(st.args.at(0));
            if (!s || s->kind != Slot::Val || !s->exact || !s->defined || !clientMap) {
                e.outcome = "skip";
                return;
            }
            int found = -1;
            e.outcome = call(fr, [&] {
                if (auto it = clientMap->find(*s->v); it != clientMap->end())
                    found = it->second;
            });
            auto it = clientModel.find(s->print);
            const int want = it == clientModel.end() ? -1 : it->second;
            if (e.outcome == "ok" && (found != want || clientMap->size() < clientModel.size()))
                violation("map-mismatch", st.id, "client map returned " + std::to_string(found) + " for " + s->print.substr(0, 400)
                    + ", model says " + std::to_string(want));
        } else if (op == "mapclear") {
            clientMap.reset();
            clientModel.clear();
        }
    }

    void Exec::dropClient()
    {
        clientMap.reset();
        clientModel.clear();
        slots.clear();
    }

    void Exec::dropAll()
    {
        dropClient();
        clearCaches();
    }

    // Equality, hashing and identity over everything that is alive at the end of the run.
    void Exec::pairwise()
    {
        std::vector<std::pair<int, Slot*>> vals;
        for (auto& [id, s] : slots)
            if (s.kind == Slot::Val && s.defined && s.nodes < 200)
                vals.emplace_back(id, &s);
        StepAlloc*& cur = currentStepAlloc();
        cur = nullptr;
        std::vector<size_t> hashes;
        for (auto& [id, s] : vals) {
            SutScope ss;
            size_t h = std::hash<Var>{}(*s->v);
            HarnessScope hs;
            hashes.push_back(h);
        }
        for (size_t i = 0; i < vals.size(); ++i)
            for (size_t j = i; j < vals.size(); ++j) {
                const bool same = vals[i].second->print == vals[j].second->print;
                bool eq, qe, ne;
                {
                    SutScope ss;
                    eq = *vals[i].second->v == *vals[j].second->v;
                    qe = *vals[j].second->v == *vals[i].second->v;
                    ne = *vals[i].second->v != *vals[j].second->v;
                }
                // Different floating point numbers count as equal if they agree within a tolerance.
                const bool exact = vals[i].second->exact && vals[j].second->exact;
                if ((eq != same && (exact || same)) || qe != eq || ne == eq)
                    violation("equality", vals[j].first,
                      "== is " + std::to_string(eq) + "/" + std::to_string(qe) + ", != is " + std::to_string(ne) + " for "
                        + vals[i].second->print.substr(0, 300) + " and " + vals[j].second->print.substr(0, 300));
                if (same && hashes[i] != hashes[j])
                    violation("hash", vals[j].first, "equal values hash differently: " + vals[i].second->print.substr(0, 300));
            }
    }

    // ------------------------------------------------------------ baton threads
    struct Worker {
        std::thread th;
        std::mutex m;
        std::condition_variable cv;
        const std::function<void()>* job = nullptr;
        bool stop = false, busy = false;
        Worker()
        {
            th = std::thread([this] {
                std::unique_lock<std::mutex> l(m);
                for (;;) {
                    cv.wait(l, [this] { return job || stop; });
                    if (stop)
                        return;
                    (*job)();
                    job = nullptr;
                    cv.notify_all();
                }
            });
        }
        void run(const std::function<void()>& f)
        {
            std::unique_lock<std::mutex> l(m);
            job = &f;
            cv.notify_all();
            cv.wait(l, [this] { return !job; });
        }
        ~Worker()
        {
            {
                std::unique_lock<std::mutex> l(m);
                stop = true;
                cv.notify_all();
            }
            th.join();
        }
    };

    void Exec::runAll()
    {
        std::map<int, std::unique_ptr<Worker>> workers;
        int last = 0;
        uint64_t switches = 0;
        for (const auto& st : sc.steps) {
            if (st.in >= 0) {
                bool parent = false;
                for (const auto& p : sc.steps)
                    if (p.id == st.in)
                        parent = true;
                if (parent)
                    continue; // run by its parent
            }
            if (st.op == "texit") {
                if (!opt.reference)
                    workers.erase(static_cast<int>(st.n));
                continue;
            }
            if (st.thread == 0 || opt.reference)
                runStep(st, false);
            else {
                auto& w = workers[st.thread];
                if (!w)
                    w = std::make_unique<Worker>();
                w->run([&] { runStep(st, false); });
            }
            if (st.thread != last)
                ++switches;
            last = st.thread;
        }
        if (!quiet)
            ch.put("S switches " + std::to_string(switches) + "\n");
    }
}

void messageRaised(int level, int line, const char* fmt)
{
    HarnessScope hs;
    if (!gExec || gExec->stack.empty())
        return;
    Frame& fr = *gExec->stack.back();
    if (gExec->loggerKind == 1)
        fr.pending.push_back({level, line, fmt});
    else if (gExec->loggerKind == 0)
        fr.shown.push_back({level, line, fmt});
}

void executeInto(const Scenario& sc, const ExecOptions& opt, char* shm, size_t cap)
{
    Channel ch{shm + sizeof(size_t), cap - sizeof(size_t), reinterpret_cast<size_t*>(shm)};
    heapInit(opt.reference ? 1 : sc.cfg.placement, opt.reference ? 77 : sc.cfg.seed * 31 + sc.cfg.index,
      opt.reference ? 0xA5 : static_cast<unsigned char>(sc.cfg.fill));
    clockInit(opt.reference ? 0 : sc.cfg.clockMode, sc.cfg.seed * 1000003 + sc.cfg.index);
    if (sc.cfg.locale && !opt.reference)
        std::locale::global(std::locale(std::locale::classic(), new ForeignPunct));
    Exec x(sc, opt, ch);
    gExec = &x;
    gMemoMode = sc.cfg.memo;
    gMissPm = sc.cfg.missPm;
    gMissRng = sc.cfg.seed * 7919 + sc.cfg.index;
    x.cout = std::make_unique<CoutCapture>();
    if (sc.cfg.logger == 0 && !sc.cfg.leak)
        x.loggerKind = 0; // the one that is installed before anybody installs one
    else
        x.installLogger(sc.cfg.logger);
    uint64_t live[4] = {0, 0, 0, 0};
    auto second = [&] {
        x.done.clear();
        gMemoMode = sc.cfg.memo;
        gMissPm = sc.cfg.missPm;
        gMissRng = sc.cfg.seed * 7919 + sc.cfg.index;
        x.installLogger(sc.cfg.logger);
    };
    if (sc.cfg.leak == 3 && !opt.reference) {
        // the same work three times in one process, nothing dropped but the client's own values
        x.faultsOn = false;
        for (int pass = 0; pass < 3; ++pass) {
            if (pass)
                second();
            x.quiet = pass < 2;
            x.runAll();
            x.recheckAll(-1, "at the end");
            x.dropClient();
            if (pass) {
                live[2 * pass - 2] = heap.liveBlocks;
                live[2 * pass - 1] = heap.liveBytes;
            }
        }
        heapCheckFree();
    } else if (sc.cfg.leak && !opt.reference) {
        x.quiet = sc.cfg.leak == 1;
        x.faultsOn = sc.cfg.leak != 1;
        x.runAll();
        x.dropAll();
        live[0] = heap.liveBlocks;
        live[1] = heap.liveBytes;
        second();
        x.quiet = sc.cfg.leak != 1;
        x.faultsOn = sc.cfg.leak == 1;
        x.runAll();
        x.recheckAll(-1, "at the end");
        x.dropAll();
        live[2] = heap.liveBlocks;
        live[3] = heap.liveBytes;
        heapCheckFree();
    } else {
        x.runAll();
        if (!opt.reference) {
            x.recheckAll(-1, "at the end");
            x.pairwise();
            heapCheckFree();
        }
    }
    if (heap.corrupt || heap.writeAfterFree)
        x.violation("heap-corruption", -1,
          "bad deletes: " + std::to_string(heap.corrupt) + ", writes after free: " + std::to_string(heap.writeAfterFree));
    x.installLogger(2);
    if (x.liveLoggers != 0)
        x.violation("logger-leak", -1, std::to_string(x.liveLoggers) + " replaced loggers still alive");
    ch.put("S live " + std::to_string(live[0]) + " " + std::to_string(live[1]) + " " + std::to_string(live[2]) + " "
      + std::to_string(live[3]) + "\n");
    ch.put("S clock " + std::to_string(clockReads()) + " " + std::to_string(clockSpan()) + "\n");
    ch.put("S memo " + std::to_string(gLookups) + " " + std::to_string(gForced) + "\n");
    ch.put("S nested " + std::to_string(x.nestedRun) + "\n");
    ch.put("END\n");
    // no destructors: the process ends here
    x.cout.release();
    gExec = nullptr;
}

namespace {
    // True if every thread of the process sleeps; ticks: processor time used so far.
    bool allAsleep(pid_t pid, unsigned long long& ticks)
    {
        const std::string dir = "/proc/" + std::to_string(pid) + "/task";
        DIR* d = opendir(dir.c_str());
        if (!d)
            return false;
        bool asleep = true;
        ticks = 0;
        while (const dirent* e = readdir(d)) {
            if (e->d_name[0] == '.')
                continue;
            std::ifstream f(dir + "/" + e->d_name + "/stat");
            std::string line;
            std::getline(f, line);
            const size_t at = line.rfind(')');
            if (at == std::string::npos) {
                asleep = false;
                continue;
            }
            std::istringstream in(line.substr(at + 1));
            std::string state, skip;
            unsigned long long u = 0, s = 0;
            in >> state;
            for (int k = 0; k < 10; ++k)
                in >> skip;
            in >> u >> s;
            ticks += u + s;
            if (state != "S")
                asleep = false;
        }
        closedir(d);
        return asleep;
    }

    // A run never waits for anything outside: if all its threads sleep for seconds, they wait for each
    // other (or one for itself). Such a run is ended; true in that case.
    bool awaitExit(pid_t pid)
    {
        const int fd = static_cast<int>(syscall(SYS_pidfd_open, pid, 0));
        if (fd < 0)
            return false;
        unsigned long long last = ~0ull;
        int still = 0;
        bool stuck = false;
        for (;;) {
            struct pollfd pf {fd, POLLIN, 0};
            if (poll(&pf, 1, 400) != 0)
                break;
            unsigned long long now = 0;
            still = allAsleep(pid, now) && now == last ? still + 1 : 0;
            last = now;
            if (still >= 8) {
                stuck = true;
                kill(pid, SIGKILL);
                break;
            }
        }
        close(fd);
        return stuck;
    }
}

RunResult runForked(const Scenario& sc, const ExecOptions& opt)
{
    static const size_t cap = 8u << 20;
    static char* shm = static_cast<char*>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *reinterpret_cast<size_t*>(shm) = 0;
    RunResult r;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl {};
        rl.rlim_cur = static_cast<rlim_t>(opt.cpuLimit);
        rl.rlim_max = rl.rlim_cur + 1;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 3ull << 30;
        setrlimit(RLIMIT_AS, &rl);
        // stderr of an aborting child is noise
        if (!getenv("SIM_STDERR")) {
            FILE* f = freopen("/dev/null", "w", stderr);
            (void)f;
        }
        executeInto(sc, opt, shm, cap);
        _exit(0);
    }
    int status = 0;
    const bool stuck = awaitExit(pid);
    waitpid(pid, &status, 0);
    std::string text(shm + sizeof(size_t), *reinterpret_cast<size_t*>(shm));
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "E") {
            Event e;
            int sf = 0, cf = 0, ne = 0;
            l >> e.id >> e.outcome >> e.result >> e.allocs >> e.allocFired >> sf >> cf >> e.callbacks >> e.logCount
              >> e.logText >> e.coutText >> e.tag >> ne >> e.nodes >> e.logger;
            e.sinkFired = sf;
            e.cbFired = cf;
            e.nested = ne;
            auto dec = [](std::string& s) { s = s == "-" ? "" : decode(s); };
            dec(e.result);
            dec(e.logText);
            dec(e.coutText);
            dec(e.tag);
            r.events.push_back(std::move(e));
        } else if (k == "V") {
            Violation v;
            std::string d;
            l >> v.cls >> v.step >> d;
            v.detail = decode(d);
            r.violations.push_back(v);
        } else if (k == "S") {
            std::string w;
            l >> w;
            if (w == "live")
                l >> r.live[0] >> r.live[1] >> r.live[2] >> r.live[3];
            else if (w == "clock")
                l >> r.clockReads >> r.clockSpan;
            else if (w == "memo")
                l >> r.lookups >> r.forcedMisses;
            else if (w == "nested")
                l >> r.nestedRun;
            else if (w == "switches")
                l >> r.threadSwitches;
        } else if (k == "END")
            r.finished = true;
    }
    r.journal = fnv(text);
    if (!r.finished || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        r.finished = false;
        if (WIFSIGNALED(status)) {
            int sig = WTERMSIG(status);
            r.crash = stuck ? "all threads waiting for ever" : sig == SIGXCPU || sig == SIGKILL ? "hang" : std::string("signal ") + strsignal(sig);
        } else
            r.crash = "exit " + std::to_string(WEXITSTATUS(status));
    }
    return r;
}
}
