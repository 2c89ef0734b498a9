#include "gen.h"
#include <algorithm>
#include <functional>
#include <map>

namespace sim {
namespace {
    struct Builder {
        Rng& r;
        const Profile& p;
        std::vector<Step> steps;
        std::vector<int> vals;
        std::vector<int> syms;
        int nextId;
        int client;
        Builder(Rng& r, const Profile& p, int firstId, int client) : r(r), p(p), nextId(firstId), client(client) {}

        int add(const std::string& op, std::vector<int> args = {}, long n = 0, long m = 0, const std::string& text = "")
        {
            Step s;
            s.id = nextId++;
            s.op = op;
            s.args = std::move(args);
            s.n = n;
            s.m = m;
            s.text = text;
            s.thread = p.threads ? 1 + client % p.threads : 0;
            steps.push_back(s);
            return s.id;
        }

        static const std::vector<std::string>& names()
        {
            static const std::vector<std::string> n{"a", "b", "c", "d", "x", "y", "a_1", "x_{10}", "alpha", "zz9", "Omega_2", "phi", "mu_{12}"};
            return n;
        }

        int sym()
        {
            if (p.pctNames && r.chance(p.pctNames)) {
                int id = add(r.chance(40) ? "psym" : "sym", {}, 0, 0, oddName());
                syms.push_back(id);
                return id;
            }
            if (!syms.empty() && r.chance(60))
                return r.pick(syms);
            std::string n = r.chance(75) ? names()[r.below(4)] : r.pick(names());
            if (p.family && r.chance(70)) { // names that only differ in details
                static const std::vector<std::string> rel{"", "_1", "_2", "_{12}", "_{1a}", "1", "_x", ""};
                n = (r.chance(80) ? names()[static_cast<size_t>(p.family)] : std::string(1, static_cast<char>(names()[static_cast<size_t>(p.family)][0] - 32))) + r.pick(rel);
            }
            int id = add(r.chance(30) ? "psym" : "sym", {}, 0, 0, n);
            syms.push_back(id);
            return id;
        }

        // Names that differ in one place only, collide when their parts are joined, or look like
        // something else the library knows.
        std::string oddName()
        {
            static const std::vector<std::string> n{"a", "a_1", "a_12", "a1", "a12", "a1_2", "aa", "aa_1", "A", "A_1", "b_a",
              "a_b", "ab", "pi1", "e1", "tmp", "tmp1", "tmp_1", "tmp0", "alpha", "alpha_1", "Alpha", "sin1", "x_{ab}", "x_ab",
              "xa_b", "longername_3", "a_0", "a_00", "a0", "z9", "abcdefghijklmnopqrstuvwxyz_01234567890123456789"};
            if (!usedNames.empty() && r.chance(55)) {
                const std::string t = r.chance(35) ? r.pick(usedNames) : mutated(r.pick(usedNames));
                usedNames.push_back(t);
                return spelled(t);
            }
            usedNames.push_back(r.chance(30) ? longName() : r.pick(n));
            return spelled(usedNames.back());
        }

        // subscripts of more than one character are put in braces
        std::string spelled(const std::string& t)
        {
            const size_t bar = t.find('_');
            if (bar == std::string::npos || bar + 1 >= t.size() || t[bar + 1] == '{' || (t.size() == bar + 2 && r.chance(70)) || r.chance(5))
                return t;
            return t.substr(0, bar + 1) + "{" + t.substr(bar + 1) + "}";
        }

        std::vector<std::string> usedNames;

        std::string longName()
        {
            std::string t(1, static_cast<char>((r.chance(80) ? 'a' : 'A') + r.below(26)));
            auto tail = [&](long len) {
                for (; len > 0; --len)
                    t += static_cast<char>(r.chance(20) ? '0' + r.below(10) : 'a' + r.below(26));
            };
            tail(r.range(0, r.chance(50) ? 6 : 70));
            if (r.chance(60)) {
                t += "_";
                tail(r.range(1, r.chance(60) ? 5 : 60));
            }
            return t;
        }

        // one detail of a name changed
        std::string mutated(std::string t)
        {
            for (char c : {'{', '}'})
                t.erase(std::remove(t.begin(), t.end(), c), t.end());
            const size_t k = r.below(t.size()), bar = t.find('_');
            switch (r.below(8)) {
                case 0: if (isalpha(static_cast<unsigned char>(t[k]))) t[k] = static_cast<char>(t[k] ^ 32); break;
                case 1: t.back() = t.back() == '1' ? '2' : '1'; break;
                case 2: if (k) t[k] = t[k] == 'q' ? 'r' : 'q'; break;
                case 3: t += static_cast<char>(r.chance(50) ? '0' + r.below(10) : 'a' + r.below(26)); break;
                case 4: if (t.size() > 3) t.pop_back(); break;
                case 5: if (bar == std::string::npos) t.insert(1 + r.below(t.size()), "_"); else t.erase(bar, 1); break;
                case 6: // the border between name and subscript moves
                    if (bar != std::string::npos && bar + 2 < t.size()) {
                        t.erase(bar, 1);
                        t.insert(bar + 1, "_");
                    } else if (bar != std::string::npos && bar > 1) {
                        t.erase(bar, 1);
                        t.insert(bar - 1, "_");
                    }
                    break;
                default: if (k && k + 1 < t.size() && t[k] != '_' && t[k + 1] != '_') std::swap(t[k], t[k + 1]); break;
            }
            while (!t.empty() && t.back() == '_')
                t.pop_back();
            return t;
        }

        int plainSym()
        {
            int id = add("sym", {}, 0, 0, names()[r.below(5)]);
            syms.push_back(id);
            return id;
        }

        int num()
        {
            switch (r.below(12)) {
                case 0: return add("frac", {}, r.range(-9, 9), r.range(1, 9));
                case 1: return add("frac", {}, r.range(1, 30), r.range(2, 30));
                case 2: return add("varstr", {}, 0, 0, bigDigits());
                case 3: return add("dbl", {}, r.range(-999, 999), r.chance(50) ? 8 : 1000007);
                case 4: return add(r.chance(50) ? "pi" : "e");
                default: return add("int", {}, r.range(-7, 12));
            }
        }

        std::string bigDigits()
        {
            std::string d = std::to_string(r.range(1, 9));
            const long len = r.range(3, 40);
            for (long i = 0; i < len; ++i)
                d += static_cast<char>('0' + r.below(10));
            return d;
        }

        int posInt(long a, long b) { return add("int", {}, r.range(a, b)); }

        int leaf() { return r.chance(65) ? sym() : num(); }

        int poly(int terms)
        {
            int s = -1;
            for (int i = 0; i < terms; ++i) {
                int t = sym();
                if (r.chance(40))
                    t = add("mul", {t, sym()});
                if (r.chance(30))
                    t = add("pow", {t, posInt(2, 3)});
                if (r.chance(40))
                    t = add("mul", {posInt(2, 6), t});
                if (s < 0)
                    s = t;
                else
                    s = add(r.chance(65) ? "add" : "sub", {s, t});
            }
            if (r.chance(30))
                s = add("add", {s, posInt(1, 4)});
            return s;
        }

        int fct()
        {
            static const std::vector<std::string> f{"sqrt", "log", "sin", "cos", "tan", "asin", "acos", "atan"};
            int arg = r.chance(60) ? sym() : poly(2);
            if (r.chance(12))
                return add("atan2", {arg, sym()});
            if (r.chance(20))
                return add("pow", {arg, r.chance(50) ? add("frac", {}, r.range(1, 5), r.range(2, 5)) : sym()});
            return add(r.pick(f), {arg});
        }

        int nonRational()
        {
            static const std::vector<std::string> f{"sqrt", "log", "sin", "cos", "tan", "atan"};
            int arg = sym();
            if (r.chance(50))
                arg = add(r.chance(50) ? "add" : "sub", {arg, sym()});
            return add(r.pick(f), {arg});
        }

        // Sums of quotients over several non-rational terms; normalising them renames every term.
        int manyTemporaries()
        {
            std::vector<int> f;
            for (long k = r.range(3, 5); k > 0; --k)
                f.push_back(nonRational());
            auto lin = [&] { return add(r.chance(60) ? "sub" : "add", {r.pick(f), r.pick(f)}); };
            auto sq = [&] {
                int two = add("int", {}, 2);
                return add("sub", {add("pow", {r.pick(f), two}), add("pow", {r.pick(f), two})});
            };
            int q = add("div", {lin(), r.chance(60) ? sq() : lin()});
            q = add(r.chance(50) ? "add" : "sub", {q, add("div", {r.chance(50) ? posInt(1, 2) : lin(), lin()})});
            return q;
        }

        // Many different terms at once, all of them linear: more than fit in anything of a fixed size
        int wideTerms()
        {
            static const std::vector<std::string> f{"sqrt", "log", "sin", "cos", "tan", "atan"};
            const long k = r.range(8, 26);
            const int one = sym(), two = sym();
            const auto shape = r.below(4);
            int v = -1;
            for (long i = 0; i < k; ++i) {
                const int arg = add("add", {r.chance(50) ? one : two, add("int", {}, i + 1)});
                int t = shape == 3 ? add(r.chance(50) ? "sym" : "psym", {}, 0, 0, std::string(1, static_cast<char>('f' + r.below(3))) + std::to_string(i)) : add(r.pick(f), {arg});
                if (r.chance(30))
                    t = add("mul", {r.chance(50) ? posInt(2, 5) : sym(), t});
                else if (shape == 2 && r.chance(30))
                    t = add("div", {t, posInt(2, 5)});
                v = v < 0 ? t : add(r.chance(70) ? "add" : "sub", {v, t});
            }
            if (shape == 1)
                v = add("div", {v, sym()});
            return v;
        }

        // Several terms of the same shape that differ in one argument of the same kind only: comparing and
        // ordering them has to look at everything.
        int siblings()
        {
            static const std::vector<std::string> f{"sqrt", "log", "sin", "cos", "tan", "atan"};
            const auto shape = r.below(7), kind = r.below(5);
            const int x = sym(), y = sym();
            const std::string fn = r.pick(f);
            const long k = r.range(2, 4);
            int v = -1;
            for (long i = 0; i < k; ++i) {
                int arg;
                switch (kind) {
                    case 0: arg = add("add", {sym(), sym()}); break;
                    case 1: arg = add("mul", {sym(), sym()}); break;
                    case 2: arg = add("pow", {sym(), posInt(2, 3)}); break;
                    case 3: arg = add("add", {add("mul", {sym(), sym()}), sym()}); break;
                    default: arg = add(fn, {sym()}); break;
                }
                int t;
                switch (shape) {
                    case 0: t = add("pow", {x, arg}); break;
                    case 1: t = add("pow", {arg, y}); break;
                    case 2: t = add(fn, {arg}); break;
                    case 3: t = add("mul", {x, add(fn, {arg})}); break;
                    case 4: t = add("atan2", {arg, y}); break;
                    case 5: t = add("pow", {add("add", {x, arg}), add("frac", {}, r.range(1, 3), 2)}); break;
                    default: t = add("mul", {arg, add("pow", {y, sym()})}); break;
                }
                v = v < 0 ? t : add(r.chance(60) ? "add" : "mul", {v, t});
            }
            return v;
        }

        // The same operation on expressions that differ in one argument, one after the other, and
        // often where an earlier one was: nothing that was remembered of one may be taken for another.
        void siblingOps()
        {
            static const std::vector<std::string> un{"sqrt", "log", "sin", "cos", "tan", "asin", "acos", "atan", "neg"};
            static const std::vector<std::string> bi{"atan2", "pow", "mul", "div", "add", "sub"};
            static const std::vector<std::string> ops{"diff", "diff", "subst", "subst", "expand", "simplify", "normal", "num", "den",
              "hash", "symbols", "operands", "hasq", "query", "print", "typestr", "pow", "mul", "add", "sin", "log"};
            auto argument = [&] {
                switch (r.below(6)) {
                    case 0: return num();
                    case 1: return add(r.chance(50) ? "add" : "mul", {sym(), leaf()});
                    case 2: return add("add", {sym(), posInt(1, 9)});
                    default: return sym();
                }
            };
            const std::string f = r.pick(un), g = r.pick(bi), outer = r.pick(un), op = r.pick(ops);
            const auto shape = r.below(5);
            int x = argument(), y = argument();
            const int wrt = sym(), to = leaf(), with = sym();
            const long how = static_cast<long>(r.below(op == "print" ? 5 : 8));
            const bool away = r.chance(50);
            for (long k = r.range(2, 5); k > 0; --k) {
                int t;
                switch (shape) {
                    case 0: t = add(f, {x}); break;
                    case 1: t = add(g, {add(f, {x}), y}); break;
                    case 2: t = add(outer, {add(g, {x, y})}); break;
                    default: t = add(g, {x, y}); break;
                }
                int v = -1;
                if (op == "diff")
                    v = add(op, {t, wrt});
                else if (op == "subst")
                    v = add(op, {t, wrt, to});
                else if (op == "hasq")
                    add(op, {t, wrt});
                else if (op == "query" || op == "print")
                    add(op, {t}, how);
                else if (op == "hash" || op == "symbols" || op == "operands" || op == "typestr")
                    add(op, {t});
                else if (op == "pow" || op == "mul" || op == "add")
                    v = add(op, {t, with});
                else
                    v = add(op, {t});
                if (v >= 0 && (!away || k == 1))
                    vals.push_back(v);
                if (away)
                    add("drop", {t});
                (r.chance(60) ? y : x) = argument();
            }
        }

        int recipe()
        {
            if (p.pctTemporaries && r.chance(p.pctTemporaries))
                return r.chance(20) ? wideTerms() : manyTemporaries();
            if (r.chance(2))
                return wideTerms();
            switch (r.below(18)) {
                case 16:
                case 17: return siblings();
                case 0: { // rational function with a common factor
                    int f = poly(2), g = poly(2), h = poly(static_cast<int>(r.range(1, 2)));
                    int n = add("mul", {f, g}), d = add("mul", {f, h});
                    if (r.chance(50)) {
                        n = add("expand", {n});
                        d = add("expand", {d});
                    }
                    return add("div", {n, d});
                }
                case 1: { // continued fraction
                    int v = add("div", {sym(), sym()});
                    for (long k = r.range(1, 2); k > 0; --k)
                        v = add("add", {sym(), add("div", {r.chance(50) ? posInt(1, 3) : sym(), v})});
                    return v;
                }
                case 2: { // several non-rational parts, rationalised through temporaries
                    int f1 = fct(), f2 = fct(), f3 = fct();
                    int q = add("div", {add("sub", {f1, f2}), add(r.chance(50) ? "sub" : "add", {f2, f3})});
                    if (r.chance(60))
                        q = add("add", {q, add("div", {posInt(1, 2), add("add", {f1, r.chance(50) ? f3 : fct()})})});
                    return q;
                }
                case 3: { // numeric powers
                    int v = add("sqrt", {posInt(2, 60)});
                    for (long k = r.range(1, 3); k > 0; --k) {
                        int w = add("pow", {add("frac", {}, r.range(1, 40), r.range(1, 7)),
                                       add("frac", {}, r.range(-5, 5), r.range(2, 4))});
                        v = add(r.chance(70) ? "mul" : "add", {v, w});
                    }
                    return v;
                }
                case 4: { // product of sums
                    int v = add("pow", {poly(2), posInt(2, 3)});
                    return add("mul", {v, r.chance(50) ? poly(2) : add("pow", {poly(1), posInt(1, 3)})});
                }
                case 5: { // trigonometric contraction
                    int x = r.chance(70) ? sym() : poly(2);
                    int s = add("sin", {x}), c = add("cos", {x});
                    int v = add("mul", {add("pow", {s, posInt(-3, 3)}), add("pow", {c, posInt(-3, 3)})});
                    if (r.chance(50))
                        v = add("mul", {v, add("pow", {add("tan", {x}), posInt(-2, 2)})});
                    return v;
                }
                case 6: { // nested functions
                    int v = fct();
                    for (long k = r.range(1, 2); k > 0; --k) {
                        int w = add(r.chance(50) ? "add" : "mul", {v, leaf()});
                        static const std::vector<std::string> f{"sqrt", "log", "sin", "cos", "atan", "neg"};
                        v = add(r.pick(f), {w});
                    }
                    return v;
                }
                case 7: { // telescoping quotient
                    int x = sym(), one = posInt(1, 1);
                    int k = posInt(2, 4);
                    int n = add("sub", {add("pow", {x, k}), one});
                    return add("div", {n, add("sub", {x, one})});
                }
                case 8: { // plain random tree
                    int v = leaf();
                    for (long k = r.range(2, 5); k > 0; --k) {
                        static const std::vector<std::string> f{"add", "sub", "mul", "div"};
                        v = add(r.pick(f), {v, leaf()});
                    }
                    return v;
                }
                case 9: { // difference of fractions
                    int q1 = add("div", {poly(1), poly(2)}), q2 = add("div", {poly(1), poly(2)});
                    return add(r.chance(50) ? "add" : "sub", {q1, q2});
                }
                case 10: { // constants and inverse trigonometry with special values
                    int v = add("div", {add("pi"), posInt(1, 12)});
                    static const std::vector<std::string> f{"sin", "cos", "tan"};
                    v = add(r.pick(f), {r.chance(50) ? v : add("mul", {v, posInt(-7, 7)})});
                    return r.chance(50) ? v : add("add", {v, add("log", {posInt(1, 9)})});
                }
                case 11: { // powers of powers
                    int v = add("pow", {sym(), r.chance(50) ? add("frac", {}, r.range(1, 5), r.range(2, 4)) : sym()});
                    v = add("mul", {v, add("pow", {sym(), leaf()})});
                    return add("pow", {v, r.chance(60) ? add("frac", {}, r.range(-3, 3), r.range(1, 3)) : posInt(-3, 3)});
                }
                case 12: { // trigonometric functions of inverse ones and the other way round
                    static const std::vector<std::string> f{"sin", "cos", "tan"}, g{"asin", "acos", "atan"};
                    const auto arg = [&] {
                        switch (r.below(5)) {
                            case 0: return sym();
                            case 1: return add("frac", {}, r.range(-6, 6), r.range(1, 7));
                            case 2: return add("mul", {add("pi"), add("frac", {}, r.range(-20, 20), r.range(1, 12))});
                            case 3: return posInt(-9, 9);
                            default: return add("add", {sym(), posInt(1, 3)});
                        }
                    };
                    if (r.chance(20))
                        return add("atan2", {arg(), arg()});
                    if (r.chance(20))
                        return add(r.pick(f), {add("atan2", {arg(), arg()})});
                    return r.chance(55) ? add(r.pick(f), {add(r.pick(g), {arg()})}) : add(r.pick(g), {add(r.pick(f), {arg()})});
                }
                case 13: { // floating point numbers in functions, and constants evaluated numerically
                    const int d = add("dbl", {}, r.range(-99, 99), r.chance(50) ? 100 : 64);
                    static const std::vector<std::string> f{"sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log"};
                    switch (r.below(5)) {
                        case 0: return add(r.pick(f), {d});
                        case 1: return add(r.pick(f), {add("mul", {d, r.chance(50) ? add("pi") : sym()})});
                        case 2: return add("atan2", {d, r.chance(50) ? posInt(-3, 3) : add("dbl", {}, r.range(-9, 9), 4)});
                        case 3: return add("pow", {r.chance(50) ? d : sym(), r.chance(50) ? d : posInt(-4, 4)});
                        default: return add("add", {add("mul", {add("sqrt", {posInt(2, 9)}), d}), add("log", {posInt(2, 5)})});
                    }
                }
                case 14: { // exponentials and logarithms
                    const int x = r.chance(60) ? sym() : posInt(1, 20);
                    switch (r.below(5)) {
                        case 0: return add("pow", {add("e"), add("log", {x})});
                        case 1: return add("log", {add("pow", {add("e"), x})});
                        case 2: return add("pow", {add("e"), add("mul", {leaf(), add("log", {x})})});
                        case 3: return add("log", {add("pow", {x, add("frac", {}, r.range(-5, 5), r.range(1, 4))})});
                        default: return add("mul", {add("pow", {add("e"), sym()}), add("pow", {add("e"), add("neg", {x})})});
                    }
                }
                default: { // big integers
                    if (r.chance(15)) // exponents beyond the primitive types
                        return add("div", {add("pow", {sym(), add("varstr", {}, 0, 0, bigDigits())}), add("add", {sym(), posInt(1, 3)})});
                    int v = add("varstr", {}, 0, 0, bigDigits());
                    if (r.chance(40)) { // a root that can only be evaluated with large numbers
                        v = add("pow", {v, add("frac", {}, r.chance(50) ? 1 : r.range(-3, 3), r.range(2, 4))});
                        add("query", {v}, r.chance(60) ? 6 : static_cast<long>(r.below(8)));
                        return r.chance(50) ? v : add("add", {v, num()});
                    }
                    int w = add("varstr", {}, 0, 0, bigDigits());
                    int q = add(r.chance(50) ? "div" : "mul", {v, w});
                    return add("add", {q, r.chance(50) ? add("div", {w, v}) : sym()});
                }
            }
        }

        int any()
        {
            if (vals.empty() || r.chance(10))
                return leaf();
            // prefer recent values
            size_t n = vals.size();
            size_t k = r.chance(60) ? n - 1 - r.below(std::min<size_t>(n, 4)) : r.below(n);
            return vals[k];
        }

        void transform()
        {
            static const std::vector<std::string> un{"simplify", "normal", "expand", "num", "den", "simplify", "normal",
              "neg", "sqrt", "log", "sin", "cos", "copy", "plus", "atan", "tan", "asin", "acos", "get"};
            static const std::vector<std::string> bi{"add", "sub", "mul", "div", "add", "mul", "pow", "atan2"};
            static const std::vector<std::string> ip{"addeq", "subeq", "muleq", "diveq"};
            int v;
            const auto roll = r.below(100);
            if (static_cast<int>(roll) < p.pctInPlace) {
                int a = r.chance(20) ? leaf() : any();
                v = add(r.pick(ip), {a, r.chance(20) ? a : any()});
            } else if (roll < 55) {
                const auto& op = r.pick(un);
                v = add(op, {any()}, op == "get" ? static_cast<long>(r.below(4)) : 0);
            } else if (roll < 75)
                v = add(r.pick(bi), {any(), any()});
            else if (roll < 85) {
                const int f = any();
                v = add("diff", {f, r.chance(90) ? sym() : any()});
                for (long k = r.chance(35) ? r.range(1, 3) : 0; k > 0; --k) { // a gradient
                    vals.push_back(v);
                    v = add("diff", {f, sym()});
                }
            } else if (r.chance(25)) { // the same replacement for several symbols, one at a time
                const int f = any(), to = leaf();
                v = add("subst", {f, sym(), to});
                vals.push_back(v);
                v = add("subst", {f, sym(), to});
            } else
                v = add("subst", {any(), r.chance(75) ? sym() : any(), r.chance(50) ? leaf() : any()});
            vals.push_back(v);
        }

        std::string infix(int depth)
        {
            if (p.pctWarnText && r.chance(p.pctWarnText / 2))
                return r.pick(std::vector<std::string>{"1/0", "a/0", "0^(-2)", "log(0)", "asin(2)", "b/(1-1)", "(0-4)^(1/2)", "log(-3)",
                  "1/(a-a)", "acos(5)", "tan(pi/2)", "(x/0)"});
            if (p.pctNames && r.chance(p.pctNames / 3))
                return oddName();
            if (depth == 0 || r.chance(25)) {
                switch (r.below(9)) {
                    case 0: return std::to_string(r.range(0, 99));
                    case 1: return bigDigits();
                    case 2: return r.pick(std::vector<std::string>{"pi", "euler", "Pi", "EULER", "pI"});
                    case 3: return std::to_string(r.range(0, 9)) + "." + std::to_string(r.range(0, 99));
                    case 4: // unusual spellings of numbers
                        switch (r.below(6)) {
                            case 0: return std::string(1 + r.below(3), '0') + std::to_string(r.range(0, 999));
                            case 1: return "." + std::to_string(r.range(0, 999));
                            case 2: return std::to_string(r.range(0, 99)) + ".";
                            case 3: return std::to_string(r.range(0, 9)) + "e" + std::to_string(r.range(-3, 3));
                            case 4: return std::to_string(r.range(0, 9)) + ".5E" + std::to_string(r.range(-3, 3));
                            default: return std::string(r.below(3), '0') + bigDigits();
                        }
                    case 5: // unusual spellings of names
                        switch (r.below(6)) {
                            case 0: return names()[r.below(4)] + "_" + std::to_string(r.below(10));
                            case 1: return names()[r.below(4)] + "_{" + std::to_string(r.below(1000)) + "ab}";
                            case 2: return r.pick(std::vector<std::string>{"sin", "sinus", "log", "atan2", "sqrtx", "asi", "lo"});
                            case 3: return r.pick(std::vector<std::string>{"pix", "eule", "p", "inf", "nan", "e", "E1"});
                            case 4: return std::string(1 + r.below(40), static_cast<char>('a' + r.below(26)));
                            default: return "A" + names()[r.below(4)] + std::to_string(r.below(30));
                        }
                    default: return names()[r.below(names().size())];
                }
            }
            auto sp = [&] { return r.chance(30) ? std::string(1, " \t\n\v\r"[r.chance(80) ? 0 : r.below(5)]) : std::string(); };
            switch (r.below(8)) {
                case 0: return infix(depth - 1) + sp() + "+" + sp() + infix(depth - 1);
                case 1: return infix(depth - 1) + sp() + "-" + sp() + infix(depth - 1);
                case 2: return infix(depth - 1) + "*" + sp() + infix(depth - 1);
                case 3: return infix(depth - 1) + sp() + "/" + infix(depth - 1);
                case 4: return "(" + infix(depth - 1) + ")^" + std::to_string(r.range(0, 4));
                case 5: return "(" + sp() + infix(depth - 1) + ")";
                case 6: return "-" + infix(depth - 1);
                default: {
                    static const std::vector<std::string> f{"sin", "cos", "tan", "sqrt", "log", "asin", "acos", "atan"};
                    if (r.chance(12))
                        return "atan2" + sp() + "(" + infix(depth - 1) + sp() + "," + sp() + infix(depth - 1) + ")";
                    std::string name = r.pick(f);
                    if (r.chance(10))
                        for (char& c : name)
                            if (r.chance(60))
                                c = static_cast<char>(c - 32);
                    return name + sp() + "(" + infix(depth - 1) + sp() + ")";
                }
            }
        }

        void parseStep()
        {
            std::string t = infix(static_cast<int>(r.range(1, 3)));
            if (r.chance(6)) { // many brackets, long chains
                const size_t k = 2 + r.below(30);
                if (r.chance(50))
                    t = std::string(k, '(') + names()[r.below(4)] + std::string(k - (r.chance(20) ? 1 : 0), ')');
                else
                    for (size_t i = 0; i < k && t.size() < 200; ++i)
                        t += "+" + std::to_string(i % 3 + 1) + "*" + names()[r.below(names().size())];
            } else if (t.size() > 90)
                t.resize(90);
            if (r.chance(10))
                t = std::string(1, " \t\n"[r.below(3)]) + t + " ";
            if (r.chance(5))
                t = "+" + t;
            if (r.chance(45)) { // damaged text: torn, bit flip, lost or duplicated block
                switch (r.below(5)) {
                    case 0: t.resize(r.below(t.size() + 1)); break;
                    case 1: t[r.below(t.size())] = static_cast<char>(t[0] ^ (1 << r.below(8))); break;
                    case 2: t.erase(r.below(t.size()), 1 + r.below(4)); break;
                    case 3: {
                        size_t k = r.below(t.size());
                        t.insert(k, t.substr(k, 1 + r.below(5)));
                        break;
                    }
                    default: t.insert(r.below(t.size() + 1), 1, static_cast<char>(r.below(256))); break;
                }
            }
            if (t.empty())
                t = " ";
            if (r.chance(4)) { // numbers and names of unusual length
                std::string d = std::to_string(r.range(1, 9));
                for (long k = r.range(60, r.chance(50) ? 300 : 900); k > 0; --k)
                    d += static_cast<char>('0' + r.below(10));
                switch (r.below(5)) {
                    case 0: t = d; break;
                    case 1: t = names()[r.below(4)] + "*" + d + "-1"; break;
                    case 2: t = "(" + d + ")/(" + d.substr(0, d.size() / 2) + "+" + names()[r.below(4)] + ")"; break;
                    case 3: t = names()[r.below(4)] + "1" + d + "+1"; break;
                    default: t = "2*" + names()[r.below(4)] + "_{" + d + "}"; break;
                }
            } else if (r.chance(p.pctWarnText ? 10 : 3)) { // long texts that are no names
                t = std::string(r.range(100, 1600), static_cast<char>('a' + r.below(26)));
                const size_t k = r.below(t.size());
                t[k] = " +#-?("[r.below(6)];
                if (r.chance(30))
                    t[0] = '3';
                add(r.chance(60) ? "varstr" : r.chance(50) ? "psym" : "parse", {}, 0, 0, t);
                return;
            }
            if (r.chance(12)) {
                add(r.chance(70) ? "varstr" : "psym", {}, 0, 0, t);
                return;
            }
            vals.push_back(add("parse", {}, 0, 0, t));
        }

        int hiddenZero()
        {
            const int x = sym(), y = sym();
            const int two = add("int", {}, 2);
            switch (r.below(5)) {
                case 0: return add("sub", {add("mul", {add("add", {x, y}), add("sub", {x, y})}), add("sub", {add("pow", {x, two}), add("pow", {y, two})})});
                case 1: return add("sub", {add("mul", {x, add("add", {y, two})}), add("add", {add("mul", {x, y}), add("mul", {two, x})})});
                case 2: return add("sub", {add("add", {add("pow", {add("sin", {x}), two}), add("pow", {add("cos", {x}), two})}), add("int", {}, 1)});
                case 3: return add("sub", {add("div", {x, add("add", {x, y})}), add("sub", {add("int", {}, 1), add("div", {y, add("add", {x, y})})})});
                default: return add("sub", {add("expand", {add("pow", {add("add", {x, y}), two})}), add("pow", {add("add", {x, y}), two})});
            }
        }

        // Something ordinary of the kind that the long stretch of work consists of
        void probe(long kind)
        {
            const int x = sym();
            int v;
            switch (kind) {
                case 0: v = add("pow", {posInt(2, 1100), add("frac", {}, r.chance(50) ? 1 : r.range(-5, 5), r.range(2, 4))}); break;
                case 1: v = add(r.chance(50) ? "sin" : "tan", {add("mul", {add("pi"), add("frac", {}, r.range(-30, 30), r.range(1, 12))})}); break;
                case 2: v = add("log", {posInt(1, 2000)}); break;
                case 3: v = add("sub", {x, add(r.chance(50) ? "sym" : "psym", {}, 0, 0, spelled(longName()))}); break;
                case 4: parseStep(); return;
                case 5: v = add("normal", {recipe()}); break;
                case 7: v = add("expand", {add("mul", {add("pow", {poly(2), posInt(2, 3)}), poly(2)})}); break;
                case 8: noise(); return;
                case 9: v = add("div", {add("pow", {posInt(2, 40), posInt(8, 50)}), add("pow", {posInt(2, 40), posInt(8, 50)})}); break;
                case 10: v = add(r.chance(50) ? "eq" : "hash", {any()}); if (steps.back().op == "eq") steps.back().args.push_back(any()); return;
                case 11: add("print", {any()}, static_cast<long>(r.below(5))); return;
                case 12: linearStep(); return;
                case 13: v = add(r.chance(50) ? "diff" : "simplify", {add("diff", {recipe(), x})}); if (steps.back().op == "diff") steps.back().args.push_back(x); break;
                case 14: v = add(r.chance(50) ? "num" : "den", {recipe()}); break;
                case 15: add("query", {add("mul", {add("sqrt", {posInt(2, 200)}), add("log", {posInt(2, 50)})})}, 6); return;
                case 16: observe(); return;
                case 17: transform(); return;
                case 18: case 19: v = siblings(); break;
                default: v = add("simplify", {recipe()}); break;
            }
            vals.push_back(v);
        }

        void soakBlock()
        {
            const long kind = p.pctNoise > 30 && r.chance(60) ? 8 : static_cast<long>(r.below(20));
            const size_t from = steps.size();
            for (long k = r.range(1, 3); k > 0; --k)
                probe(kind);
            std::vector<Step> again;
            for (size_t i = from; i < steps.size(); ++i)
                if (!isControl(steps[i].op) && steps[i].op != "sym" && steps[i].op != "psym" && steps[i].op != "int" && r.chance(50))
                    again.push_back(steps[i]);
            static const std::vector<long> amounts{12, 30, 70, 140, 300};
            long n = r.pick(amounts) + static_cast<long>(r.below(10));
            if ((kind == 3 || kind == 8) && r.chance(30))
                n *= 6;
            add("soak", {}, n, kind + (p.pctStorm && r.chance(p.pctStorm) ? 50 : 0) + 100 * static_cast<long>(r.below(1000000)));
            for (Step& s : again) {
                s.id = nextId++;
                steps.push_back(s);
                static const std::vector<std::string> noVal{"print", "query", "eq", "hasq", "operands", "symbols", "hash", "typestr",
                  "solve", "inv", "det"};
                if (std::find(noVal.begin(), noVal.end(), s.op) == noVal.end())
                    vals.push_back(s.id);
            }
            for (long k = r.range(1, 3); k > 0; --k)
                probe(kind);
        }

        void linearStep()
        {
            const bool wide = r.chance(p.pctLinear > 40 ? 8 : 2); // larger ones have few entries that are no numbers
            const long dim = wide ? r.range(4, 6) : r.chance(54) ? 2 : (r.chance(62) ? 3 : r.chance(65) ? 1 : 4);
            const auto kind = r.below(10);
            const std::string op = kind < 5 ? "solve" : kind < 8 ? "inv" : "det";
            std::vector<int> a;
            std::vector<int> base{sym(), sym(), posInt(1, 5), posInt(0, 1), add("int", {}, 0)};
            // how a row can depend on the ones above: the same, the same but only in the last row, a multiple, a sum; zero column
            const auto flavour = r.chance(30) ? 1 + r.below(5) : 0;
            const int multiplier = flavour == 3 ? (r.chance(50) ? sym() : posInt(2, 3)) : 0;
            if (r.chance(15))
                base.push_back(add("frac", {}, r.range(-3, 3), r.range(2, 5)));
            if (r.chance(10))
                base.push_back(add(r.chance(50) ? "sqrt" : "sin", {r.chance(50) ? sym() : posInt(2, 5)}));
            if (r.chance(10))
                base.push_back(any());
            int hidden = -1;
            if (r.chance(25)) // zero, but it takes some work to see it
                base.push_back(hidden = hiddenZero());
            for (long i = 0; i < dim; ++i)
                for (long j = 0; j < dim; ++j) {
                    const auto above = [&](long row) { return a[static_cast<size_t>(row * dim + j)]; };
                    if (flavour == 1 && i > 0)
                        a.push_back(above(0));
                    else if (flavour == 2 && i > 0 && i == dim - 1)
                        a.push_back(above(dim - 2));
                    else if (flavour == 3 && i > 0 && i == dim - 1)
                        a.push_back(add("mul", {above(0), multiplier}));
                    else if (flavour == 4 && i > 1 && i == dim - 1)
                        a.push_back(add("add", {above(0), above(1)}));
                    else if (flavour == 5 && j == dim - 1)
                        a.push_back(base[4]);
                    else if (hidden >= 0 && dim == 1 && r.chance(60))
                        a.push_back(hidden);
                    else {
                        int e = r.pick(base);
                        if (wide && r.chance(90))
                            e = r.chance(40) ? base[4] : r.chance(70) ? base[3] : base[2];
                        else if (r.chance(15))
                            e = add("add", {e, sym()});
                        a.push_back(e);
                    }
                }
            if (op == "solve")
                for (long i = 0; i < dim; ++i)
                    a.push_back(r.chance(50) ? r.pick(base) : sym());
            const long variant = static_cast<long>(r.below(7));
            long mask = r.chance(25) ? static_cast<long>(r.below(static_cast<uint64_t>(1) << dim)) : 0;
            if (mask == (1l << dim) - 1)
                mask = 0;
            int v = add(op, a, dim + 10 * variant, mask + (r.chance(35) ? 100 : 0));
            if (r.chance(60))
                vals.push_back(add("elem", {v}, static_cast<long>(r.below(static_cast<uint64_t>(dim)))));
        }

        void noise()
        {
            switch (r.below(8)) {
                case 0: vals.push_back(add("div", {any(), add("int", {}, 0)})); break;
                case 1: vals.push_back(add("diff", {any(), posInt(1, 5)})); break;
                case 2: vals.push_back(add("log", {add("int", {}, r.range(-2, 0))})); break;
                case 3:
                    add("varstr", {}, 0, 0, r.chance(20) ? std::string(static_cast<size_t>(r.range(60, 2000)), 'k') + " b" : r.chance(50) ? "2+a" : "1a");
                    break;
                case 4: add("psym", {}, 0, 0, "-17"); break;
                case 5: vals.push_back(add("pow", {add("int", {}, r.range(-4, 0)), add("frac", {}, r.range(-3, 3), 2)})); break;
                case 6: vals.push_back(add("asin", {posInt(2, 4)})); break;
                default: vals.push_back(add("simplify", {any()})); break;
            }
        }

        void observe()
        {
            switch (r.below(8)) {
                case 0: add("operands", {any()}); break;
                case 1: add("symbols", {any()}); break;
                case 2: add("hasq", {any(), r.chance(60) ? sym() : any()}); break;
                case 3: add("eq", {any(), any()}); break;
                case 4: add("hash", {any()}); break;
                case 5: add("typestr", {any()}); break;
                default: add("query", {any()}, static_cast<long>(r.below(8))); break;
            }
        }

        void control()
        {
            if (p.pctThreadExit && r.chance(40)) {
                add("texit", {}, r.range(1, p.threads));
                return;
            }
            if (p.pctLogSwap && r.chance(p.pctLogSwap)) {
                add("setlogger", {}, static_cast<long>(r.below(3)));
                return;
            }
            switch (r.below(6)) {
                case 0: add("clear"); break;
                case 1: add("memo", {}, 2, r.range(20, 600)); break;
                case 2: add("memo", {}, static_cast<long>(r.below(2))); break;
                case 3: add("setlogger", {}, static_cast<long>(r.below(3))); break;
                default: add("clockjump", {}, r.range(-100000000, 100000000)); break;
            }
        }

        // The expression of an earlier step once more, with one thing changed: a symbol by its positive
        // twin, a number by its neighbour, the order of two operands, one function by another. Look-up
        // keys that leave something out confuse the two.
        void similar()
        {
            const Step& root = steps[r.below(steps.size())];
            if (isControl(root.op))
                return;
            std::map<int, const Step*> byId;
            for (const auto& s : steps)
                byId[s.id] = &s;
            std::vector<int> cone;
            std::function<void(int)> visit = [&](int id) {
                if (std::find(cone.begin(), cone.end(), id) != cone.end() || !byId.count(id) || cone.size() > 40)
                    return;
                for (int a : byId[id]->args)
                    visit(a);
                cone.push_back(id);
            };
            visit(root.id);
            if (cone.size() > 40 || cone.empty())
                return;
            std::vector<Step> copy;
            for (int id : cone)
                copy.push_back(*byId[id]);
            const size_t victim = r.below(copy.size());
            std::map<int, int> map;
            for (size_t i = 0; i < copy.size(); ++i) {
                Step c = copy[i];
                if (i == victim) {
                    if (c.op == "sym" && r.chance(60))
                        c.op = "psym";
                    else if (c.op == "psym" && r.chance(60))
                        c.op = "sym";
                    else if (c.op == "sym" || c.op == "psym")
                        c.text = names()[r.below(4)];
                    else if (c.op == "int")
                        c.n = r.chance(50) ? -c.n : c.n + r.range(-1, 1);
                    else if (c.op == "frac")
                        c.n += r.range(-1, 1);
                    else if (c.op == "add" || c.op == "sub")
                        c.op = c.op == "add" ? "sub" : "add";
                    else if (c.op == "mul" || c.op == "div" || c.op == "pow")
                        std::swap(c.args[0], c.args[1]);
                    else if (c.op == "sin" || c.op == "cos" || c.op == "tan" || c.op == "log" || c.op == "sqrt")
                        c.op = r.pick(std::vector<std::string>{"sin", "cos", "tan", "log", "sqrt", "asin", "atan"});
                    else if (c.op == "simplify" || c.op == "normal" || c.op == "expand" || c.op == "num" || c.op == "den")
                        c.op = r.pick(std::vector<std::string>{"simplify", "normal", "expand", "num", "den"});
                } else if (i + 1 != copy.size() && r.chance(70) && std::find(c.args.begin(), c.args.end(), copy[victim].id) == c.args.end()) {
                    bool untouched = true;
                    for (int a : c.args)
                        if (map.count(a) && map[a] != a)
                            untouched = false;
                    if (untouched) {
                        map[c.id] = c.id;
                        continue;
                    }
                }
                for (int& a : c.args)
                    if (map.count(a))
                        a = map[a];
                map[c.id] = nextId;
                c.id = nextId++;
                steps.push_back(c);
            }
            static const std::vector<std::string> noVal{"print", "query", "eq", "hasq", "operands", "symbols", "hash", "typestr",
              "solve", "inv", "det"};
            if (std::find(noVal.begin(), noVal.end(), steps.back().op) == noVal.end() && !isControl(steps.back().op))
                vals.push_back(steps.back().id);
        }

        void one()
        {
            int roll = static_cast<int>(r.below(100));
            auto hit = [&](int pct) {
                if (roll < pct)
                    return true;
                roll -= pct;
                return false;
            };
            if (hit(p.pctSoak))
                return soakBlock();
            if (hit(p.pctControl))
                return control();
            if (hit(p.pctObserve))
                return observe();
            if (hit(p.pctPrint)) {
                add("print", {any()}, static_cast<long>(r.below(5)), r.chance(25) ? static_cast<long>(1 + r.below(3)) : 0);
                return;
            }
            if (hit(p.pctLinear))
                return linearStep();
            if (hit(p.pctParse))
                return parseStep();
            if (hit(p.pctNoise))
                return noise();
            if (hit(p.pctMap)) {
                int v = any();
                add(r.chance(50) ? "mapput" : "mapget", {v});
                return;
            }
            if (hit(p.pctDrop) && vals.size() > 3) {
                size_t k = r.below(vals.size());
                add("drop", {vals[k]});
                vals.erase(vals.begin() + static_cast<long>(k));
                return;
            }
            if (r.chance(p.pctSibling))
                return siblingOps();
            if (p.pctSimilar && r.chance(p.pctSimilar) && !steps.empty())
                return similar();
            if (p.pctRepeat && r.chance(p.pctRepeat) && !steps.empty()) {
                const Step& s = steps[r.below(steps.size())];
                if (!isControl(s.op)) {
                    Step c = s;
                    c.id = nextId++;
                    steps.push_back(c);
                    if (c.op != "print" && c.op != "query" && c.op != "eq" && c.op != "hasq" && c.op != "operands"
                      && c.op != "symbols" && c.op != "hash" && c.op != "typestr" && c.op != "solve" && c.op != "inv"
                      && c.op != "det")
                        vals.push_back(c.id);
                    return;
                }
            }
            if (p.pctTemporaries && r.chance(p.pctTemporaries)) {
                static const std::vector<std::string> f{"normal", "simplify", "normal", "num", "den"};
                vals.push_back(add(r.pick(f), {recipe()}));
            } else if (vals.size() < 2 || r.chance(25))
                vals.push_back(recipe());
            else
                transform();
        }
    };
}

Profile profileFor(const std::string& prop, Rng& r, Config& cfg)
{
    Profile p;
    cfg.prop = prop;
    cfg.placement = static_cast<int>(r.below(4));
    cfg.fill = static_cast<int>(r.pick(std::vector<int>{0xA5, 0x00, 0xFF, 0x5A}));
    cfg.clockMode = static_cast<int>(r.below(5));
    cfg.memo = r.chance(70) ? 1 : (r.chance(70) ? 2 : 0);
    cfg.missPm = static_cast<int>(r.range(20, 700));
    cfg.logger = r.chance(80) ? 1 : static_cast<int>(r.below(3));
    p.clients = static_cast<int>(r.range(1, 4));
    p.opsPerClient = static_cast<int>(r.range(3, 10));
    p.family = r.chance(25) ? static_cast<int>(1 + r.below(5)) : 0;
    // The amount of faults varies per run: runs without any, with a few, and with storms.
    auto some = [&](std::initializer_list<int> v) { return r.pick(std::vector<int>(v)); };
    p.pctSibling = prop == "C01" || prop == "C08" || prop == "C13" ? some({0, 5, 15}) : some({0, 0, 4});
    if (prop == "C01") { // history
        p.pctSoak = some({0, 0, 5, 12});
        p.burn = r.chance(50) ? static_cast<int>(r.chance(70) ? r.range(2, 12) : r.range(12, 60)) : 0;
        p.pctRepeat = 30;
        if (r.chance(35)) {
            p.pctTemporaries = 60;
            p.burn = static_cast<int>(r.range(1, 9));
            cfg.memo = r.chance(80) ? 1 : 2;
        }
        p.pctControl = r.chance(60) ? 12 : 0;
        p.pctSimilar = some({0, 20, 40});
    } else if (prop == "C02") { // failure atomicity
        p.pctAlloc = some({5, 15, 30});
        p.pctCb = some({0, 20, 50});
        p.maxAttempts = static_cast<int>(r.range(1, 2));
        p.pctInPlace = 25;
        p.pctNoise = 8;
        p.pctPrint = 4;
        cfg.holdAll = r.chance(20);
        p.pctNest = some({0, 0, 15});
        p.pctNestFault = some({0, 30});
    } else if (prop == "C03") { // recovery
        p.pctSoak = some({0, 0, 0, 8});
        p.pctStorm = 70;
        p.pctAlloc = some({10, 25, 60});
        p.pctCb = some({0, 30});
        p.maxAttempts = static_cast<int>(r.range(1, 5));
        p.pctRepeat = 40;
        p.burn = r.chance(30) ? static_cast<int>(r.range(1, 8)) : 0;
        p.pctTemporaries = r.chance(40) ? 40 : 0;
        p.pctControl = r.chance(50) ? 8 : 0;
        cfg.memo = r.chance(80) ? 1 : 2;
        p.pctNest = some({0, 0, 15});
        p.pctNestFault = some({0, 50});
    } else if (prop == "C04") { // memory
        p.pctSoak = some({0, 0, 0, 8});
        p.pctStorm = 50;
        cfg.leak = 1;
        p.pctAlloc = some({0, 10, 30});
        p.pctCb = some({0, 30});
        p.pctSink = some({0, 20});
        p.maxAttempts = 2;
        p.pctTemporaries = r.chance(30) ? 40 : 0;
        p.pctDrop = 10;
        p.pctMap = some({0, 6});
        p.pctNoise = 8;
        p.pctPrint = 8;
        p.pctControl = r.chance(50) ? 10 : 0;
        cfg.memo = r.chance(85) ? 1 : 0;
        if (r.chance(35)) { // the same work again and again, in a process that never drops its memo tables
            cfg.leak = 3;
            cfg.memo = 1;
            p.pctAlloc = p.pctCb = p.pctSink = p.pctControl = 0;
            p.pctTemporaries = r.chance(50) ? 40 : 0;
            p.pctStorm = 0;
        }
    } else if (prop == "C05") { // linear systems
        p.pctLinear = 55;
        p.pctObserve = 5;
        p.pctParse = 0;
        p.pctAlloc = some({0, 20, 45});
        p.pctCb = some({0, 40, 80});
        p.maxAttempts = 3;
        p.pctNest = some({0, 15});
        p.pctNestFault = some({0, 20});
        p.opsPerClient = static_cast<int>(r.range(3, 7));
    } else if (prop == "C06") { // log delivery
        p.pctWarnText = 20;
        p.pctSoak = some({0, 0, 0, 8});
        p.pctNoise = 45;
        p.pctControl = 15;
        p.pctLogSwap = 60;
        p.pctCb = some({0, 0, 30});
        p.pctSink = some({0, 25});
        p.pctLinear = 6;
        p.pctNest = some({0, 10});
        p.pctNestFault = some({0, 20});
        cfg.memo = r.chance(60) ? 0 : 1;
        cfg.logger = static_cast<int>(r.below(3));
        if (r.chance(60))
            p.threads = 0;
        else
            p.threads = static_cast<int>(r.range(1, 3));
    } else if (prop == "C07") { // printing
        p.pctPrint = 50;
        p.pctSink = some({0, 40, 70});
        p.pctAlloc = some({0, 10, 25});
        p.pctCb = some({0, 30});
        p.maxAttempts = 2;
        p.pctNest = some({0, 10});
        p.pctNestFault = some({0, 20});
        p.pctParse = 3;
    } else if (prop == "C08") { // environment
        p.pctSoak = some({0, 0, 0, 6});
        p.threads = r.chance(60) ? static_cast<int>(r.range(1, 4)) : 0;
        p.pctControl = 15;
        p.burn = r.chance(30) ? static_cast<int>(r.range(2, 12)) : 0;
        p.pctTemporaries = r.chance(30) ? 40 : 0;
        p.pctThreadExit = p.threads ? 6 : 0;
        p.pctParse = 15;
        p.pctPrint = 8;
        cfg.memo = r.chance(60) ? 1 : (r.chance(50) ? 0 : 2);
        cfg.logger = static_cast<int>(r.below(3));
        cfg.locale = r.chance(30);
    } else if (prop == "C09") { // re-entrancy
        p.pctWarnText = 40;
        p.pctParse = 14;
        p.pctNest = some({30, 70});
        p.pctNestFault = some({0, 25});
        p.pctPrint = 15;
        p.pctLinear = 12;
        p.pctNoise = 18;
        p.pctCb = some({0, 0, 30});
        p.pctAlloc = some({0, 0, 10});
        cfg.logger = 1;
        p.pctTemporaries = r.chance(30) ? 40 : 0;
    } else if (prop == "C10") { // immutability
        p.pctSoak = some({0, 0, 0, 6});
        cfg.holdAll = 1;
        p.pctInPlace = 35;
        p.pctDrop = some({5, 20});
        p.pctControl = r.chance(50) ? 12 : 0;
        p.pctAlloc = some({0, 0, 10});
        p.pctCb = some({0, 0, 20});
        p.pctNest = some({0, 0, 20});
        p.pctNestFault = some({0, 20});
        p.threads = r.chance(25) ? static_cast<int>(r.range(1, 3)) : 0;
        p.pctThreadExit = p.threads ? 4 : 0;
        p.pctLinear = 6;
        p.burn = r.chance(30) ? static_cast<int>(r.range(1, 6)) : 0;
    } else if (prop == "C11") { // symbols
        p.pctSoak = some({0, 0, 0, 8});
        p.pctStorm = 40;
        p.pctTemporaries = some({20, 60});
        p.pctNames = 60;
        p.pctAlloc = some({0, 10, 30});
        p.pctCb = some({0, 0, 30});
        p.maxAttempts = 3;
        p.burn = static_cast<int>(r.chance(60) ? r.range(0, 10) : r.range(10, 40));
        p.pctObserve = 25;
        p.threads = r.chance(25) ? static_cast<int>(r.range(1, 3)) : 0;
        p.pctThreadExit = p.threads ? 4 : 0;
    } else if (prop == "C12") { // parsing
        p.pctWarnText = some({0, 20});
        p.pctSoak = some({0, 0, 0, 6});
        p.pctStorm = 30;
        p.pctParse = 60;
        p.pctNames = 20;
        p.pctAlloc = some({0, 15, 40});
        p.pctCb = some({0, 0, 30});
        p.maxAttempts = 3;
        p.pctNoise = 10;
        p.pctNest = some({0, 5});
        p.pctNestFault = some({0, 20});
        p.pctRepeat = 20;
    } else if (prop == "C13") { // values as keys
        p.pctSoak = some({0, 0, 0, 6});
        p.pctStorm = 30;
        p.pctMap = 30;
        p.pctObserve = 25;
        p.pctAlloc = some({0, 10, 25});
        p.pctRepeat = 40;
        p.pctSimilar = 40;
        p.pctNames = 30;
        p.pctControl = r.chance(50) ? 10 : 0;
        p.threads = r.chance(30) ? static_cast<int>(r.range(1, 3)) : 0;
        p.pctThreadExit = p.threads ? 4 : 0;
        p.pctDrop = 12;
    }
    return p;
}

Scenario workload(const Profile& p, const Config& cfg, Rng& r)
{
    Scenario sc;
    sc.cfg = cfg;
    std::vector<std::vector<Step>> seqs;
    int next = 1;
    for (int c = 0; c < p.clients; ++c) {
        Builder b(r, p, next, c);
        for (int k = 0; k < p.opsPerClient; ++k)
            b.one();
        next = b.nextId;
        seqs.push_back(std::move(b.steps));
    }
    if (p.burn) {
        Builder b(r, p, next, p.clients);
        for (int k = 0; k < p.burn; ++k) {
            int v;
            if (r.chance(70)) { // cheap, distinct, and each leaves temporaries behind in the memo tables
                static const std::vector<std::string> g{"sin", "log", "cos", "sqrt", "atan"};
                int t = b.add("int", {}, 20 + k);
                int f1 = b.add(r.pick(g), {b.add("add", {b.plainSym(), t})});
                int f2 = b.add(r.pick(g), {b.add("sub", {b.plainSym(), t})});
                v = b.add("div", {b.add("sub", {f1, f2}), b.add("add", {f1, b.plainSym()})});
            } else
                v = b.recipe();
            static const std::vector<std::string> f{"normal", "simplify", "normal", "num", "expand"};
            b.add(r.pick(f), {v});
        }
        next = b.nextId;
        seqs.push_back(std::move(b.steps));
    }
    // seeded scheduler: which client moves next
    std::vector<size_t> pos(seqs.size(), 0);
    // burst lengths vary per run, so that both fine and coarse interleavings occur
    const long burst = r.range(1, 6);
    for (;;) {
        std::vector<size_t> ready;
        for (size_t i = 0; i < seqs.size(); ++i)
            if (pos[i] < seqs[i].size())
                ready.push_back(i);
        if (ready.empty())
            break;
        size_t who = ready[r.below(ready.size())];
        for (long k = r.range(1, burst); k > 0 && pos[who] < seqs[who].size(); --k)
            sc.steps.push_back(seqs[who][pos[who]++]);
    }
    return sc;
}

Scenario plant(const Scenario& sc, const RunResult& dry, const Profile& p, Rng& r)
{
    std::map<int, const Event*> ev;
    for (const auto& e : dry.events)
        ev[e.id] = &e;
    Scenario out;
    out.cfg = sc.cfg;
    int next = 1;
    for (const auto& s : sc.steps)
        next = std::max(next, s.id + 1);
    for (const auto& s : sc.steps) {
        const Event* e = ev.count(s.id) ? ev[s.id] : nullptr;
        auto attempt = [&] {
            Step c = s;
            c.id = next++;
            return c;
        };
        if (e) {
            if (e->allocs && r.chance(p.pctAlloc))
                for (long k = r.range(1, p.maxAttempts); k > 0; --k) {
                    Step c = attempt();
                    const auto roll = r.below(100);
                    if (roll < 80) {
                        const auto where = r.below(100);
                        if (where < 60)
                            c.af.nth = 1 + r.below(e->allocs);
                        else if (where < 80)
                            c.af.nth = 1 + r.below(std::min<uint64_t>(e->allocs, 8));
                        else
                            c.af.nth = e->allocs - r.below(std::min<uint64_t>(e->allocs, 8));
                        c.af.burst = r.chance(60) ? 1 : r.chance(40) ? 1 + r.below(5) : ~0ull;
                    } else if (roll < 90)
                        c.af.quota = 16 + r.below(r.chance(50) ? 400 : 4000);
                    else
                        c.af.bigger = 24 + 8 * r.below(r.chance(50) ? 8 : 60);
                    out.steps.push_back(c);
                }
            if (e->callbacks && r.chance(p.pctCb)) {
                Step c = attempt();
                c.cbThrow = r.range(1, e->callbacks);
                if (r.chance(10))
                    c.cbThrow = 1;
                out.steps.push_back(c);
            }
            if (s.op != "print" && !isControl(s.op) && !e->coutText.empty() && r.chance(p.pctSink)) {
                Step c = attempt(); // standard output, as used by the default logger, fails
                c.sink = static_cast<Sink>(r.range(1, 3));
                c.sinkAt = static_cast<long>(r.below(e->coutText.size() + 1));
                c.sinkExc = r.chance(40);
                out.steps.push_back(c);
            }
            if (s.op == "print" && s.n < 3 && r.chance(p.pctSink)) {
                Step c = attempt();
                c.sink = static_cast<Sink>(r.range(1, 3));
                c.sinkAt = static_cast<long>(r.below(e->result.size() + 2));
                c.sinkExc = r.chance(50);
                out.steps.push_back(c);
            }
        }
        out.steps.push_back(s);
        if (e && e->callbacks && r.chance(p.pctNest) && !out.steps.empty()) {
            const bool prefer = r.chance(40);
            // nested steps repeat earlier work of any client, inside a callback of this step; sometimes they call back
            // again, fail or are thrown out themselves
            std::function<void(int, const Step&, long, int)> nest = [&](int parent, const Step& outer, long callbacks, int depth) {
                for (long k = r.range(1, depth ? 2 : 3); k > 0; --k) {
                    const Step* pick = &sc.steps[r.below(sc.steps.size())];
                    for (int tries = 0; tries < 6 && prefer && pick->op != outer.op; ++tries) // the same entry point once more
                        pick = &sc.steps[r.below(sc.steps.size())];
                    const Step& src = *pick;
                    if (src.op == "drop" || src.op == "texit" || src.op == "setlogger" || src.op == "clear")
                        continue;
                    bool before = true;
                    for (int a : src.args) {
                        bool found = false;
                        for (const auto& o : out.steps)
                            if (o.id == a && o.in < 0 && o.id != s.id)
                                found = true;
                        before = before && found;
                    }
                    if (!before)
                        continue;
                    const Event* inner = ev.count(src.id) ? ev[src.id] : nullptr;
                    Step c = src;
                    c.id = next++;
                    c.thread = s.thread;
                    c.in = parent;
                    c.cbAt = r.range(1, callbacks);
                    if (inner && inner->allocs && r.chance(p.pctNestFault))
                        c.af.nth = 1 + r.below(inner->allocs);
                    else if (inner && inner->callbacks && r.chance(p.pctNestFault))
                        c.cbThrow = r.range(1, inner->callbacks);
                    out.steps.push_back(c);
                    if (depth < 2 && inner && inner->callbacks && r.chance(35))
                        nest(c.id, src, inner->callbacks, depth + 1);
                }
            };
            nest(s.id, s, e->callbacks, 0);
        }
    }
    return out;
}
}
