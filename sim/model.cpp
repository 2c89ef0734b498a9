#include "model.h"
#include <boost/spirit/include/qi_parse.hpp>
#include <boost/spirit/include/qi_real.hpp>
#include <cctype>
#include "base.h"
#include "name.h"
#include "number.h"
#include "symbol.h"

namespace sim {
using tsym::Var;

namespace {
    bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    bool digit(char c) { return c >= '0' && c <= '9'; }
    bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    bool alnum(char c) { return alpha(c) || digit(c); }

    // Plain recursive descent, evaluating while reading (an evaluation may throw before the text turns
    // out to be malformed). Every function leaves the position alone if it does not match.
    struct Reader {
        const std::string& t;
        size_t at = 0;
        bool isSymbol = false;
        explicit Reader(const std::string& t) : t(t) {}
        using Res = std::optional<Var>;

        void skip()
        {
            while (at < t.size() && space(t[at]))
                ++at;
        }
        bool lit(char c)
        {
            const size_t save = at;
            skip();
            if (at < t.size() && t[at] == c) {
                ++at;
                return true;
            }
            at = save;
            return false;
        }
        bool word(const char* w)
        {
            size_t k = at;
            for (; *w; ++w, ++k)
                if (k >= t.size() || std::tolower(static_cast<unsigned char>(t[k])) != *w)
                    return false;
            at = k;
            return true;
        }
        Res scalar()
        {
            const size_t save = at;
            skip();
            if (word("pi"))
                return tsym::pi();
            if (word("euler"))
                return tsym::euler();
            if (at < t.size() && alpha(t[at])) {
                std::string name, sub;
                while (at < t.size() && alnum(t[at]))
                    name += t[at++];
                if (at + 1 < t.size() && t[at] == '_') {
                    if (alnum(t[at + 1])) {
                        sub = t[at + 1];
                        at += 2;
                    } else if (t[at + 1] == '{') {
                        size_t k = at + 2;
                        while (k < t.size() && alnum(t[k]))
                            ++k;
                        if (k > at + 2 && k < t.size() && t[k] == '}') {
                            sub = t.substr(at + 2, k - at - 2);
                            at = k + 1;
                        }
                    }
                }
                return Var(tsym::Symbol::create(tsym::Name{name, sub}));
            }
            {
                namespace qi = boost::spirit::qi;
                static const qi::real_parser<double, qi::strict_ureal_policies<double>> real{};
                double d = 0;
                auto first = t.begin() + static_cast<std::ptrdiff_t>(at);
                if (qi::parse(first, t.end(), real, d)) {
                    at = static_cast<size_t>(first - t.begin());
                    return Var(d);
                }
            }
            if (at < t.size() && digit(t[at])) {
                Var v(0);
                const Var chunk(1000000);
                while (at < t.size() && digit(t[at])) {
                    int part = 0, scale = 1;
                    for (int k = 0; k < 6 && at < t.size() && digit(t[at]); ++k, ++at) {
                        part = 10 * part + (t[at] - '0');
                        scale *= 10;
                    }
                    v = v * (scale == 1000000 ? chunk : Var(scale)) + Var(part);
                }
                return v;
            }
            at = save;
            return {};
        }
        Res function()
        {
            static const struct {
                const char* name;
                Var (*f)(const Var&);
            } fs[] = {{"asin", &tsym::asin}, {"acos", &tsym::acos}, {"atan", &tsym::atan}, {"sin", &tsym::sin}, {"cos", &tsym::cos},
              {"tan", &tsym::tan}, {"sqrt", &tsym::sqrt}, {"log", &tsym::log}};
            const size_t save = at;
            for (const auto& f : fs) {
                at = save;
                skip();
                if (!word(f.name))
                    continue;
                if (lit('('))
                    if (auto a = expression())
                        if (lit(')'))
                            return f.f(*a);
                break;
            }
            at = save;
            skip();
            if (word("atan2") && lit('('))
                if (auto y = expression())
                    if (lit(','))
                        if (auto x = expression())
                            if (lit(')'))
                                return tsym::atan2(*y, *x);
            at = save;
            return {};
        }
        Res operand()
        {
            if (auto f = function())
                return f;
            if (auto s = scalar())
                return s;
            const size_t save = at;
            if (lit('('))
                if (auto e = expression())
                    if (lit(')'))
                        return e;
            at = save;
            return {};
        }
        Res factor()
        {
            auto base = operand();
            if (!base)
                return {};
            for (;;) {
                const size_t save = at;
                if (lit('^'))
                    if (auto e = factor()) {
                        base = tsym::pow(*base, *e);
                        continue;
                    }
                at = save;
                return base;
            }
        }
        Res signedFactor()
        {
            if (auto f = factor())
                return f;
            const size_t save = at;
            if (lit('-'))
                if (auto f = factor())
                    return -*f;
            at = save;
            return {};
        }
        Res summand()
        {
            auto v = signedFactor();
            if (!v)
                return {};
            for (;;) {
                const size_t save = at;
                if (lit('*')) {
                    if (auto f = signedFactor()) {
                        *v *= *f;
                        continue;
                    }
                } else if (lit('/'))
                    if (auto f = signedFactor()) {
                        *v /= *f;
                        continue;
                    }
                at = save;
                return v;
            }
        }
        Res expression()
        {
            const size_t save = at;
            lit('+');
            auto v = summand();
            if (!v) {
                at = save;
                return {};
            }
            for (;;) {
                const size_t mark = at;
                if (lit('+')) {
                    if (auto s = summand()) {
                        *v += *s;
                        continue;
                    }
                } else if (lit('-'))
                    if (auto s = summand()) {
                        *v -= *s;
                        continue;
                    }
                at = mark;
                return v;
            }
        }
    };
}

std::optional<Var> modelParse(const std::string& text)
{
    for (char c : text)
        if (static_cast<unsigned char>(c) >= 128)
            return {};
    Reader r(text);
    auto v = r.expression();
    r.skip();
    if (!v || r.at != text.size())
        return {};
    return v;
}

Var modelFromText(const std::string& text, bool positive)
{
    auto v = modelParse(text);
    if (v && v->type() == Var::Type::SYMBOL)
        return positive ? Var(tsym::Symbol::createPositive(v->get()->name())) : *v;
    if (v && v->type() == Var::Type::INT)
        return *v;
    return Var(1) / Var(0); // undefined
}

// ---------------------------------------------------------------- modular arithmetic
namespace {
    const uint64_t P = (1ull << 61) - 1;
    uint64_t mulm(uint64_t a, uint64_t b)
    {
        return static_cast<uint64_t>(static_cast<unsigned __int128>(a) * b % P);
    }
    uint64_t powm(uint64_t a, uint64_t e)
    {
        uint64_t r = 1;
        for (; e; e >>= 1, a = mulm(a, a))
            if (e & 1)
                r = mulm(r, a);
        return r;
    }
    uint64_t inv(uint64_t a) { return powm(a, P - 2); }
    uint64_t sub(uint64_t a, uint64_t b) { return (a + P - b) % P; }

    uint64_t residue(const std::string& dec)
    {
        uint64_t r = 0;
        bool neg = false;
        for (char c : dec)
            if (c == '-')
                neg = true;
            else
                r = (mulm(r, 10) + static_cast<uint64_t>(c - '0')) % P;
        return neg ? (P - r) % P : r;
    }

    uint64_t atom(const std::string& s, uint64_t salt)
    {
        uint64_t h = 1469598103934665603ull ^ (salt * 0x9E3779B97F4A7C15ull);
        for (unsigned char c : s)
            h = (h ^ c) * 1099511628211ull;
        h ^= h >> 29;
        h *= 0xBF58476D1CE4E5B9ull;
        h ^= h >> 32;
        return h % (P - 1) + 1;
    }

    std::optional<uint64_t> eval(const tsym::Base& b, uint64_t salt)
    {
        const std::string type(b.typeStr());
        if (type == "Numeric") {
            const auto n = b.numericEval();
            if (n->isDouble())
                return {};
            const uint64_t d = residue(n->denominator().str());
            if (!d)
                return {};
            return mulm(residue(n->numerator().str()), inv(d));
        }
        if (type == "Symbol")
            return atom(b.name().value + "|" + b.name().subscript + "|" + b.name().superscript + (b.isPositive() ? "+" : ""), salt);
        if (type == "Constant")
            return atom("const " + b.name().value, salt);
        if (type == "Sum" || type == "Product") {
            uint64_t r = type == "Sum" ? 0 : 1;
            for (const auto& o : b.operands()) {
                const auto e = eval(*o, salt);
                if (!e)
                    return {};
                r = type == "Sum" ? (r + *e) % P : mulm(r, *e);
            }
            return r;
        }
        if (type == "Power") {
            if (std::string(b.exp()->typeStr()) != "Numeric")
                return {};
            const auto n = b.exp()->numericEval();
            if (n->isDouble() || n->denominator() != 1 || n->numerator() > 1000 || n->numerator() < -1000)
                return {};
            const int e = static_cast<int>(n->numerator());
            const auto base = eval(*b.base(), salt);
            if (!base || (e < 0 && *base == 0))
                return {};
            return powm(e < 0 ? inv(*base) : *base, static_cast<uint64_t>(e < 0 ? -e : e));
        }
        return {};
    }

    // Determinant by elimination.
    uint64_t detm(std::vector<uint64_t> m, size_t n)
    {
        uint64_t d = 1;
        for (size_t c = 0; c < n; ++c) {
            size_t p = c;
            while (p < n && m[p * n + c] == 0)
                ++p;
            if (p == n)
                return 0;
            if (p != c) {
                for (size_t k = 0; k < n; ++k)
                    std::swap(m[p * n + k], m[c * n + k]);
                d = sub(0, d);
            }
            d = mulm(d, m[c * n + c]);
            const uint64_t iv = inv(m[c * n + c]);
            for (size_t r = c + 1; r < n; ++r) {
                const uint64_t f = mulm(m[r * n + c], iv);
                for (size_t k = c; k < n; ++k)
                    m[r * n + k] = sub(m[r * n + k], mulm(f, m[c * n + k]));
            }
        }
        return d;
    }

    bool evalAll(const std::vector<Var>& v, uint64_t salt, std::vector<uint64_t>& out)
    {
        for (const auto& x : v) {
            const auto e = modEval(x, salt);
            if (!e)
                return false;
            out.push_back(*e);
        }
        return true;
    }
}

std::optional<uint64_t> modEval(const Var& v, uint64_t salt)
{
    return v.get() ? eval(*v.get(), salt) : std::nullopt;
}

LinearVerdict modelSolve(const std::vector<Var>& a, const std::vector<Var>& b, const std::vector<Var>* x, size_t n, size_t columns)
{
    LinearVerdict v;
    int zero = 0;
    for (uint64_t salt = 1; salt <= 3; ++salt) {
        std::vector<uint64_t> m, rhs, sol;
        if (!evalAll(a, salt, m))
            continue;
        if (detm(m, n) == 0)
            ++zero;
        else
            v.kind = LinearVerdict::Regular;
        if (!x || !evalAll(b, salt, rhs) || !evalAll(*x, salt, sol))
            continue;
        v.solutionChecked = true;
        for (size_t i = 0; i < n; ++i)
            for (size_t c = 0; c < columns; ++c) {
                uint64_t s = 0;
                for (size_t j = 0; j < n; ++j)
                    s = (s + mulm(m[i * n + j], sol[j * columns + c])) % P;
                if (s != rhs[i * columns + c])
                    v.solutionRight = false;
            }
    }
    if (v.kind == LinearVerdict::Unknown && zero == 3)
        v.kind = LinearVerdict::Singular;
    return v;
}

LinearVerdict modelDeterminant(const std::vector<Var>& a, const Var* det, size_t n)
{
    LinearVerdict v;
    for (uint64_t salt = 1; salt <= 3; ++salt) {
        std::vector<uint64_t> m;
        if (!evalAll(a, salt, m))
            continue;
        const uint64_t d = detm(m, n);
        if (d)
            v.kind = LinearVerdict::Regular;
        if (!det)
            continue;
        if (const auto e = modEval(*det, salt)) {
            v.solutionChecked = true;
            if (*e != d)
                v.solutionRight = false;
        }
    }
    return v;
}
}
