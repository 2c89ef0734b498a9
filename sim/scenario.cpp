#include "scenario.h"
#include <functional>
#include <set>
#include <sstream>

namespace sim {
std::string encode(const std::string& s)
{
    static const char* hex = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s)
        if (c <= ' ' || c == '%' || c >= 127 || c == '=') {
            r += '%';
            r += hex[c >> 4];
            r += hex[c & 15];
        } else
            r += static_cast<char>(c);
    return r;
}

std::string decode(const std::string& s)
{
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size()) {
            r += static_cast<char>(v(s[i + 1]) * 16 + v(s[i + 2]));
            i += 2;
        } else
            r += s[i];
    return r;
}

std::string stepToText(const Step& s)
{
    std::ostringstream o;
    o << "step " << s.id << " " << s.op;
    if (!s.args.empty()) {
        o << " args=";
        for (size_t i = 0; i < s.args.size(); ++i)
            o << (i ? "," : "") << s.args[i];
    }
    if (!s.text.empty())
        o << " text=" << encode(s.text);
    if (s.n)
        o << " n=" << s.n;
    if (s.m)
        o << " m=" << s.m;
    if (s.thread)
        o << " t=" << s.thread;
    if (s.in >= 0)
        o << " in=" << s.in << " cbat=" << s.cbAt;
    if (s.af.nth) {
        o << " allocfail=" << s.af.nth << ":";
        if (s.af.burst == ~0ull)
            o << "all";
        else
            o << s.af.burst;
    }
    if (s.af.bigger)
        o << " allocbig=" << s.af.bigger;
    if (s.af.quota)
        o << " quota=" << s.af.quota;
    if (s.sink != Sink::None)
        o << " sink=" << static_cast<int>(s.sink) << ":" << s.sinkAt << ":" << (s.sinkExc ? 1 : 0);
    if (s.cbThrow)
        o << " cbthrow=" << s.cbThrow;
    return o.str();
}

std::string toText(const Scenario& sc)
{
    std::ostringstream o;
    const Config& c = sc.cfg;
    o << "tsym-simulation-scenario 1\n";
    o << "cfg prop=" << c.prop << " seed=" << c.seed << " index=" << c.index << " placement=" << c.placement
      << " fill=" << c.fill << " clock=" << c.clockMode << " memo=" << c.memo << " misspm=" << c.missPm
      << " leak=" << c.leak << " logger=" << c.logger << " holdall=" << c.holdAll << " profile=" << c.profile << " locale=" << c.locale << "\n";
    for (const auto& s : sc.steps)
        o << stepToText(s) << "\n";
    return o.str();
}

bool fromText(const std::string& text, Scenario& sc, std::string& error)
{
    std::istringstream in(text);
    std::string line;
    sc = Scenario{};
    bool magic = false;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#')
            continue;
        std::istringstream l(line);
        std::string tok;
        l >> tok;
        if (tok == "tsym-simulation-scenario") {
            magic = true;
            continue;
        }
        if (tok == "cfg") {
            Config& c = sc.cfg;
            while (l >> tok) {
                auto eq = tok.find('=');
                std::string k = tok.substr(0, eq), v = tok.substr(eq + 1);
                if (k == "prop") c.prop = v;
                else if (k == "seed") c.seed = std::stoull(v);
                else if (k == "index") c.index = std::stoull(v);
                else if (k == "placement") c.placement = std::stoi(v);
                else if (k == "fill") c.fill = std::stoi(v);
                else if (k == "clock") c.clockMode = std::stoi(v);
                else if (k == "memo") c.memo = std::stoi(v);
                else if (k == "misspm") c.missPm = std::stoi(v);
                else if (k == "leak") c.leak = std::stoi(v);
                else if (k == "logger") c.logger = std::stoi(v);
                else if (k == "holdall") c.holdAll = std::stoi(v);
                else if (k == "profile") c.profile = std::stoi(v);
                else if (k == "locale") c.locale = std::stoi(v);
            }
            continue;
        }
        if (tok != "step") {
            error = "bad line: " + line;
            return false;
        }
        Step s;
        l >> s.id >> s.op;
        while (l >> tok) {
            auto eq = tok.find('=');
            if (eq == std::string::npos) {
                error = "bad token " + tok;
                return false;
            }
            std::string k = tok.substr(0, eq), v = tok.substr(eq + 1);
            if (k == "args") {
                std::istringstream a(v);
                std::string e;
                while (std::getline(a, e, ','))
                    s.args.push_back(std::stoi(e));
            } else if (k == "text") s.text = decode(v);
            else if (k == "n") s.n = std::stol(v);
            else if (k == "m") s.m = std::stol(v);
            else if (k == "t") s.thread = std::stoi(v);
            else if (k == "in") s.in = std::stoi(v);
            else if (k == "cbat") s.cbAt = std::stol(v);
            else if (k == "allocfail") {
                auto c = v.find(':');
                s.af.nth = std::stoull(v.substr(0, c));
                std::string b = v.substr(c + 1);
                s.af.burst = b == "all" ? ~0ull : std::stoull(b);
            } else if (k == "allocbig") s.af.bigger = std::stoull(v);
            else if (k == "quota") s.af.quota = std::stoull(v);
            else if (k == "cbthrow") s.cbThrow = std::stol(v);
            else if (k == "sink") {
                int kind = 0, exc = 0;
                long at = 0;
                sscanf(v.c_str(), "%d:%ld:%d", &kind, &at, &exc);
                s.sink = static_cast<Sink>(kind);
                s.sinkAt = at;
                s.sinkExc = exc != 0;
            } else {
                error = "bad key " + k;
                return false;
            }
        }
        sc.steps.push_back(s);
    }
    if (!magic)
        error = "not a scenario file";
    return magic;
}

bool isControl(const std::string& op)
{
    static const std::set<std::string> c{"clear", "memo", "setlogger", "clockjump", "drop", "texit", "mapput", "mapget",
      "mapclear", "soak"};
    return c.count(op) != 0;
}

namespace {
    const Step* find(const Scenario& sc, int id)
    {
        for (const auto& s : sc.steps)
            if (s.id == id)
                return &s;
        return nullptr;
    }
}

std::string termOf(const Scenario& sc, int id, std::map<int, std::string>& memo)
{
    if (auto it = memo.find(id); it != memo.end())
        return it->second;
    const Step* s = find(sc, id);
    if (!s)
        return memo[id] = "?";
    std::string r = "(" + s->op;
    if (!s->text.empty())
        r += "'" + encode(s->text) + "'";
    if (s->n || s->m)
        r += "#" + std::to_string(s->n) + "." + std::to_string(s->m);
    for (int a : s->args)
        r += " " + termOf(sc, a, memo);
    r += ")";
    // Terms are DAGs: keep their spelling short by hashing it.
    uint64_t h1 = 1469598103934665603ull, h2 = 0x9E3779B97F4A7C15ull;
    for (unsigned char c : r) {
        h1 = (h1 ^ c) * 1099511628211ull;
        h2 = (h2 + c) * 0xBF58476D1CE4E5B9ull;
        h2 ^= h2 >> 29;
    }
    char buf[64];
    snprintf(buf, sizeof buf, "%s.%016llx%016llx", s->op.c_str(), static_cast<unsigned long long>(h1),
      static_cast<unsigned long long>(h2));
    return memo[id] = buf;
}

Scenario coneOf(const Scenario& sc, int id)
{
    std::set<int> need;
    std::function<void(int)> visit = [&](int i) {
        if (!need.insert(i).second)
            return;
        if (const Step* s = find(sc, i))
            for (int a : s->args)
                visit(a);
    };
    visit(id);
    Scenario r;
    r.cfg = sc.cfg;
    for (const auto& s : sc.steps)
        if (need.count(s.id)) {
            Step c = s;
            c.af = AllocFault{};
            c.sink = Sink::None;
            c.sinkAt = 0;
            c.sinkExc = false;
            c.cbThrow = 0;
            c.in = -1;
            c.cbAt = 0;
            c.thread = 0;
            r.steps.push_back(c);
        }
    return r;
}
}
