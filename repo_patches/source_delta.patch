From 69365fc42b12cb04d113ad564786f7870453fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:42 +0000
Subject: [PATCH 01/13] hook: let simulation builds force misses of the memo
 tables (TSYM_SIM_HOOKS)

---
 src/cache.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/cache.h b/src/cache.h
index 2155e86..dac7c65 100644
--- a/src/cache.h
+++ b/src/cache.h
@@ -12,6 +12,23 @@ namespace tsym {
     namespace detail {
         void registerCacheClearer(const short* address, std::function<void()>&& fct);
         void deregisterCacheClearer(const short* address);
+
+#ifdef TSYM_SIM_HOOKS
+        /* Only for simulation builds: the simulator decides which lookups miss. */
+        bool simForceCacheMiss();
+
+        template <class Key, class Value, class Hash, class EqualTo>
+        struct CacheMap : std::unordered_multimap<Key, Value, Hash, EqualTo> {
+            auto find(const Key& key)
+            {
+                return simForceCacheMiss() ? this->end() :
+                                             std::unordered_multimap<Key, Value, Hash, EqualTo>::find(key);
+            }
+        };
+#else
+        template <class Key, class Value, class Hash, class EqualTo>
+        using CacheMap = std::unordered_multimap<Key, Value, Hash, EqualTo>;
+#endif
     }
 
     template <class Key, class Value, class Hash = std::hash<Key>, class EqualTo = std::equal_to<Key>>
@@ -33,7 +50,7 @@ namespace tsym {
             detail::deregisterCacheClearer(&address);
         }
 
-        std::unordered_multimap<Key, Value, Hash, EqualTo> map;
+        detail::CacheMap<Key, Value, Hash, EqualTo> map;
         const short address = 0;
     };
 }
-- 
2.43.0


From 58307e26507c1f2c2e3b22567adc9ba383a9d036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:27 +0000
Subject: [PATCH 02/13] fix: make results independent of how many temporary
 symbols were created before

Temporary symbols were named with a plain decimal id and symbols are ordered
lexicographically, so tmp#10 sorted before tmp#9: normal() and simplify()
returned different forms depending on earlier, unrelated computations.
---
 src/symbol.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/symbol.cpp b/src/symbol.cpp
index 2d6b98d..0da0426 100644
--- a/src/symbol.cpp
+++ b/src/symbol.cpp
@@ -1,6 +1,8 @@
 
 #include "symbol.h"
 #include <boost/functional/hash.hpp>
+#include <limits>
+#include <string>
 #include <unordered_map>
 #include <utility>
 #include "basefct.h"
@@ -13,6 +15,20 @@
 
 unsigned tsym::Symbol::tmpCounter = 0;
 
+namespace tsym {
+    namespace {
+        std::string zeroPadded(unsigned tmpId)
+        {
+            /* Symbols are ordered lexicographically, the relation between two temporary ones shall not depend on the
+             * number of digits of their ids. */
+            const std::string digits = std::to_string(tmpId);
+            const std::size_t width = std::numeric_limits<unsigned>::digits10 + 1;
+
+            return std::string(width - digits.size(), '0') + digits;
+        }
+    }
+}
+
 tsym::Symbol::Symbol(Name name, bool positive, Base::CtorKey&&)
     : Base(typestring::symbol)
     , symbolName{std::move(name)}
@@ -23,7 +39,7 @@ tsym::Symbol::Symbol(Name name, bool positive, Base::CtorKey&&)
 
 tsym::Symbol::Symbol(unsigned tmpId, bool positive, Base::CtorKey&&)
     : Base(typestring::symbol)
-    , symbolName{std::string(tmpSymbolNamePrefix) + std::to_string(tmpId)}
+    , symbolName{std::string(tmpSymbolNamePrefix) + zeroPadded(tmpId)}
     , positive(positive)
 {
     setDebugString();
-- 
2.43.0


From cea08f7eadcebb0670ec328164ef398c0a2d56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:12 +0000
Subject: [PATCH 03/13] fix: do not print truncated integers when memory runs
 out

The digits were assembled in a string stream, which swallows a failing
allocation. Printing a big number then succeeded with digits missing.
---
 src/printer.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/printer.cpp b/src/printer.cpp
index 3ab7fb5..944a90e 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -1,7 +1,6 @@
 
 #include "printer.h"
 #include <cassert>
-#include <sstream>
 #include "base.h"
 #include "basefct.h"
 #include "baseptrlistfct.h"
@@ -313,11 +312,8 @@ namespace tsym {
 
 void tsym::print(PrintEngine& engine, const Number& number)
 {
-    static const auto toSv = [](const Int& n) {
-        std::ostringstream os;
-        os << n;
-        return os.str();
-    };
+    /* A string stream would swallow a failing allocation and return truncated digits. */
+    static const auto toSv = [](const Int& n) { return n.str(); };
 
     if (number.isDouble())
         engine.floatingPoint(number.toDouble());
-- 
2.43.0


From 2f34fa265904f99f1f02921b263a498ca02051b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:03 +0000
Subject: [PATCH 04/13] fix: repeated numerator() and denominator() calls no
 longer grow the caches without bound

Each call normalised with new temporary symbols and left entries with them in
the other caches. Look the result up instead, as Base::normal() does.
---
 src/functions.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index ceb4b2e..fac004b 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -3,6 +3,7 @@
 #include <boost/range/algorithm/find.hpp>
 #include <chrono>
 #include "basefct.h"
+#include "cache.h"
 #include "constant.h"
 #include "fraction.h"
 #include "logarithm.h"
@@ -16,7 +17,7 @@
 
 namespace tsym {
     namespace {
-        std::pair<Var, Var> normalToFraction(const BasePtr& rep)
+        std::pair<Var, Var> normalToFractionWithoutCache(const BasePtr& rep)
         {
             Fraction normalizedFrac;
             SymbolMap map;
@@ -31,6 +32,21 @@ namespace tsym {
             return std::make_pair(Var(num), Var(denom));
         }
 
+        std::pair<Var, Var> normalToFraction(const BasePtr& rep)
+        /* Without a lookup, every call would leave entries with new temporary symbols in other caches. */
+        {
+            static RegisteredCache<BasePtr, std::pair<Var, Var>> cache;
+            static auto& map(cache.map);
+
+            if (rep->operands().empty())
+                return normalToFractionWithoutCache(rep);
+
+            if (const auto lookup = map.find(rep); lookup != cend(map))
+                return lookup->second;
+
+            return map.insert({rep, normalToFractionWithoutCache(rep)})->second;
+        }
+
         void insertSymbolIfNotPresent(const BasePtr& symbol, std::vector<Var>& symbols)
         {
             const Var term(symbol);
-- 
2.43.0


From 6f4f3a5dbaf9254ee7362111f712aba186eb033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:30 +0000
Subject: [PATCH 05/13] fix: read integers with leading zeros as decimal
 numbers when parsing

The digit string was handed over to cpp_int, which takes a leading zero as the prefix of an octal number: parsing 010
gave 8, and parsing 08 (or construction of a Var from it) threw a runtime_error.
---
 src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 38e31a0..d512167 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -1,5 +1,6 @@
 
 #include "parser.h"
+#include <algorithm>
 #include <boost/algorithm/cxx11/all_of.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <functional>
@@ -140,7 +141,10 @@ namespace tsym {
 
             void pushInteger(const std::string& digits)
             {
-                stack.push(Numeric::create(Int(digits)));
+                /* Leading zeros must be dropped, because Int would read the digits as an octal number. */
+                const auto firstNonZero = std::min(digits.find_first_not_of('0'), digits.size() - 1);
+
+                stack.push(Numeric::create(Int(digits.substr(firstNonZero))));
             }
 
             void toFunction(Fct type)
-- 
2.43.0


From b89e0563fb541a09ae9f512f315ac6936ea51b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:08 +0000
Subject: [PATCH 06/13] hook: report raised messages to simulation builds,
 const look-ups (TSYM_SIM_HOOKS)

---
 src/cache.h   |  6 ++++++
 src/logging.h | 22 +++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/cache.h b/src/cache.h
index dac7c65..3a86979 100644
--- a/src/cache.h
+++ b/src/cache.h
@@ -24,6 +24,12 @@ namespace tsym {
                 return simForceCacheMiss() ? this->end() :
                                              std::unordered_multimap<Key, Value, Hash, EqualTo>::find(key);
             }
+
+            auto find(const Key& key) const
+            {
+                return simForceCacheMiss() ? this->end() :
+                                             std::unordered_multimap<Key, Value, Hash, EqualTo>::find(key);
+            }
         };
 #else
         template <class Key, class Value, class Hash, class EqualTo>
diff --git a/src/logging.h b/src/logging.h
index f1e0fce..867d1ab 100644
--- a/src/logging.h
+++ b/src/logging.h
@@ -14,9 +14,22 @@ namespace tsym {
 
             return boost::str((format % ... % args));
         }
+
+#ifdef TSYM_SIM_HOOKS
+        /* Only for simulation builds: tells the simulator about each message when it is raised. */
+        void simMessageRaised(int level, int line, const char* fmt);
+#endif
     }
 }
 
+#ifdef TSYM_SIM_HOOKS
+#define TSYM_SIM_FIRST(fmt, ...) fmt
+#define TSYM_SIM_RAISE(level, ...)                                                                                     \
+    tsym::detail::simMessageRaised(level, __LINE__, TSYM_SIM_FIRST(__VA_ARGS__, 0)),
+#else
+#define TSYM_SIM_RAISE(level, ...)
+#endif
+
 #define TSYM_LOGGING_ARGS(...)                                                                                         \
     {                                                                                                                  \
         "tsym", std::next(std::strrchr(__FILE__, '/')), __LINE__, tsym::detail::logFormat(__VA_ARGS__)                 \
@@ -24,8 +37,11 @@ namespace tsym {
 
 #define TSYM_DEBUG(...) tsym::Logger::getInstance().debug(TSYM_LOGGING_ARGS(__VA_ARGS__))
 #define TSYM_INFO(...) tsym::Logger::getInstance().info(TSYM_LOGGING_ARGS(__VA_ARGS__))
-#define TSYM_WARNING(...) tsym::Logger::getInstance().warning(TSYM_LOGGING_ARGS(__VA_ARGS__))
-#define TSYM_ERROR(...) tsym::Logger::getInstance().error(TSYM_LOGGING_ARGS(__VA_ARGS__))
-#define TSYM_CRITICAL(...) tsym::Logger::getInstance().critical(TSYM_LOGGING_ARGS(__VA_ARGS__))
+#define TSYM_WARNING(...)                                                                                              \
+    (TSYM_SIM_RAISE(2, __VA_ARGS__) tsym::Logger::getInstance().warning(TSYM_LOGGING_ARGS(__VA_ARGS__)))
+#define TSYM_ERROR(...)                                                                                                \
+    (TSYM_SIM_RAISE(3, __VA_ARGS__) tsym::Logger::getInstance().error(TSYM_LOGGING_ARGS(__VA_ARGS__)))
+#define TSYM_CRITICAL(...)                                                                                             \
+    (TSYM_SIM_RAISE(4, __VA_ARGS__) tsym::Logger::getInstance().critical(TSYM_LOGGING_ARGS(__VA_ARGS__)))
 
 #endif
-- 
2.43.0


From f2a8d03aaf3066568a79ced6f97b5430dadcf244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:07 +0000
Subject: [PATCH 07/13] fix: cancellation of fractions with polynomials that
 are not expanded

The polynomial division works on degrees and leading coefficients, which only the expanded form provides. Without, simplify
reduced (a - d*(a + d))/(a - a*d - d^2) to 0 and its inverse to Undefined, and solve accepted singular matrices.
---
 src/fraction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fraction.cpp b/src/fraction.cpp
index 613e692..8be57e0 100644
--- a/src/fraction.cpp
+++ b/src/fraction.cpp
@@ -24,8 +24,9 @@ namespace tsym {
         Fraction cancelNonTrivial(const Fraction& f)
         {
             const BasePtr gcd(poly::gcd(f.num, f.denom));
-            const BasePtr newDenom(poly::divide(f.denom, gcd).front());
-            const BasePtr newNum(poly::divide(f.num, gcd).front());
+            /* Degrees and coefficients, and thus the division, are meaningful for expanded polynomials only. */
+            const BasePtr newDenom(poly::divide(f.denom->expand(), gcd).front());
+            const BasePtr newNum(poly::divide(f.num->expand(), gcd).front());
 
             return Fraction{newNum, newDenom};
         }
-- 
2.43.0


From a62cbefe43a4c766cab9e5cb2fd098f032e70880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:31 +0000
Subject: [PATCH 08/13] fix: powers of integers whose prime factors occur in
 different multiplicities

1/324 was evaluated to 1/36, since the six primes of 2^2*3^4 were taken for three pairs of different primes. Linear systems with
a matching pivot were thus solved incorrectly.
---
 src/primefac.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primefac.cpp b/src/primefac.cpp
index a864f50..59105d8 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -156,7 +156,7 @@ namespace tsym {
         auto equalCountOrZero(const std::vector<Int>& primes, int guess)
         {
             for (auto prime = cbegin(primes) + guess; prime != cend(primes); prime += guess)
-                if (*prime != *(prime + (guess - 1)))
+                if (*prime == *(prime - 1) || *prime != *(prime + (guess - 1)))
                     return 0;
 
             return guess;
-- 
2.43.0


From a173f2854a3a2d8aedd4a08cca99d5cb9cb85f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 09/13] fix: recognise zeros in the first column of a linear
 system that show only after simplification

---
 src/directsolve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 69ec938..42589cd 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -53,6 +53,10 @@ unsigned tsym::eliminateGauss(SquareMatrixAdaptor<>& coeff, std::optional<Vector
     const std::size_t dim = coeff.dim;
     unsigned rowSwaps = 0;
 
+    /* Subsequent columns are simplified during elimination, such that zeros are recognised as such. */
+    for (std::size_t i = 0; dim > 1 && i < dim; ++i)
+        coeff(i, 0) = simplify(coeff(i, 0));
+
     for (std::size_t j = 0; j + 1 < dim; ++j) {
         const std::size_t pivIndex = piv(coeff, j);
 
-- 
2.43.0


From 4fb39afff2c0d29caf52cb7d62edeef9b5cdf6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 10/13] fix: do not read from an empty list when reciprocal
 powers of a tangent are multiplied

---
 src/productsimpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 20274d7..52dcea4 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -165,6 +165,11 @@ namespace tsym {
             const BasePtr r1(trigFunctionPowerReplacement(f1, sin, cos));
             const BasePtr r2(trigFunctionPowerReplacement(f2, sin, cos));
             BasePtrList res = simplTwoFactors(r1, r2);
+
+            if (res.empty())
+                /* Reciprocal powers, e.g. tan(a)*1/tan(a). */
+                return {Numeric::one()};
+
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
-- 
2.43.0


From e682f2f664c7bf969805c14d2ba7a847bd76f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:08 +0000
Subject: [PATCH 11/13] fix: product of reciprocal fractional powers of a
 tangent with unknown sign

---
 src/productsimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 52dcea4..08f3646 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -174,7 +174,7 @@ namespace tsym {
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
 
-            if (res.size() == 2 && exp1->isEqual(*Product::minus(exp2))) {
+            if (res.size() == 2 && isSymbol(*res.front()->base()) && exp1->isEqual(*Product::minus(exp2))) {
                 /* A combination of sin and cos should lead to tan or 1/tan. */
                 if (res.front()->base()->isEqual(*cos))
                     newExp = Product::minus(exp1);
-- 
2.43.0


From 7d614164a8c062ddcfef6f32c2fdd86b38a5dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:24 +0000
Subject: [PATCH 12/13] fix: report exhausted memory as such when converting to
 int

---
 src/var.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/var.cpp b/src/var.cpp
index 01001ee..a602508 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1,6 +1,7 @@
 
 #include "var.h"
 #include <map>
+#include <new>
 #include <stdexcept>
 #include "base.h"
 #include "basefct.h"
@@ -173,6 +174,8 @@ tsym::Var::operator int() const
 
     try {
         result = static_cast<int>(rep->numericEval().value().numerator());
+    } catch (const std::bad_alloc&) {
+        throw;
     } catch (const std::exception& e) {
         TSYM_ERROR("Conversion from %S to int failed: %s", *this, e.what());
         throw std::domain_error(errorMessage);
-- 
2.43.0


From edad9b7bbe8f5ba07f1208f8d39c8c852069cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:16 +0000
Subject: [PATCH 13/13] fix: trigonometric functions of negative constants that
 do not know their sign

---
 src/numtrigosimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 6bb5aed..fed131e 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -166,7 +166,7 @@ void tsym::NumTrigoSimpl::adjustArgRange()
     const BasePtr twoPi(timesPi(2, 1));
 
     /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. */
-    while (arg->isNegative())
+    while (*arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
 
     while (arg->numericEval() >= twoPi->numericEval())
-- 
2.43.0

