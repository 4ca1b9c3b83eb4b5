From ed4145e4fbfd51516fc13628555baa052b022100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:38 +0000
Subject: [PATCH 01/46] fix: product of a tangent and its own reciprocal
 dereferenced an empty list

tan(a)*1/tan(a) cancels completely in terms of the temporary sine and cosine
symbols, leaving an empty factor list whose front() was used.
---
 src/productsimpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 20274d7..5c4411d 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -165,6 +165,11 @@ namespace tsym {
             const BasePtr r1(trigFunctionPowerReplacement(f1, sin, cos));
             const BasePtr r2(trigFunctionPowerReplacement(f2, sin, cos));
             BasePtrList res = simplTwoFactors(r1, r2);
+
+            if (res.empty())
+                /* Everything cancelled, e.g. tan(a)*1/tan(a). */
+                return {Numeric::one()};
+
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
-- 
2.43.0


From 8c1764dddbd7a7d3fe0a353d39873a2a1bb2f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 02/46] fix: asin and acos of numerically evaluable functions
 outside of [-1, 1] are Undefined

The range was checked for numeric arguments, but not for function arguments
such as asin(tan(1)), whose numerical evaluation as NaN threw later on.
---
 src/trigonometric.cpp | 12 ++++++++++++
 src/trigonometric.h   |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 7172626..dd9042b 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -116,6 +116,8 @@ tsym::BasePtr tsym::Trigonometric::create(Type type, const BasePtr& arg)
 {
     if (isUndefined(*arg))
         return arg;
+    else if (isInverseArgOutOfRange(type, *arg))
+        return Undefined::create();
     else if (isFunction(*arg))
         return createFromFunction(type, arg);
     else if (doesSymmetryApply(arg))
@@ -126,6 +128,16 @@ tsym::BasePtr tsym::Trigonometric::create(Type type, const BasePtr& arg)
         return createInstance(type, {arg});
 }
 
+bool tsym::Trigonometric::isInverseArgOutOfRange(Type type, const Base& arg)
+{
+    if (type != Type::ASIN && type != Type::ACOS)
+        return false;
+    else if (const auto nArg = arg.numericEval())
+        return *nArg < -1 || *nArg > 1;
+    else
+        return false;
+}
+
 tsym::BasePtr tsym::Trigonometric::createInstance(Type type, const BasePtrList& args)
 {
     return std::make_shared<const Trigonometric>(args, type, Base::CtorKey{});
diff --git a/src/trigonometric.h b/src/trigonometric.h
index d01460f..e2e883d 100644
--- a/src/trigonometric.h
+++ b/src/trigonometric.h
@@ -42,6 +42,7 @@ namespace tsym {
       private:
         static BasePtr create(Type type, const BasePtr& arg);
         static BasePtr createInstance(Type type, const BasePtrList& args);
+        static bool isInverseArgOutOfRange(Type type, const Base& arg);
         static bool doesSymmetryApply(const BasePtr& arg);
         static bool haveAllNegativePrefactors(const BasePtrList& operands);
         static BasePtr createBySymmetry(Type type, const BasePtr& negativeArg);
-- 
2.43.0


From b3b4123a2e868d2628525f07f67aa03c505f568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:52 +0000
Subject: [PATCH 03/46] fix: wrong products of roots of trigonometric functions

sqrt(tan(a))*tan(a) lost a factor and sqrt(cos(a))/sqrt(cos(a)) became
1/sqrt(tan(a)): the contraction assumed at most two factors, one of the sine
and one of the cosine.
---
 src/productsimpl.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 5c4411d..c731174 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -29,6 +29,7 @@ namespace tsym {
         bool areContractableTrigFctPowers(const Base& f1, const Base& f2);
         bool isContractableTrigFctPower(const Base& pow);
         BasePtrList contractTrigFctPowers(const BasePtr& f1, const BasePtr& f2);
+        bool areSinAndCos(const Base& base1, const Base& base2, const Base& sin, const Base& cos);
         BasePtr trigSymbReplacement(Trigonometric::Type type, const BasePtr& arg);
         BasePtr trigFunctionPowerReplacement(const BasePtr& pow, const BasePtr& sin, const BasePtr& cos);
 
@@ -169,12 +170,16 @@ namespace tsym {
             if (res.empty())
                 /* Everything cancelled, e.g. tan(a)*1/tan(a). */
                 return {Numeric::one()};
+            else if (res.size() > 2)
+                /* A root of the tangent can't be split into sine and cosine of unknown sign. */
+                return {f1, f2};
 
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
 
-            if (res.size() == 2 && exp1->isEqual(*Product::minus(exp2))) {
+            if (res.size() == 2 && areSinAndCos(*res.front()->base(), *res.back()->base(), *sin, *cos)
+              && exp1->isEqual(*Product::minus(exp2))) {
                 /* A combination of sin and cos should lead to tan or 1/tan. */
                 if (res.front()->base()->isEqual(*cos))
                     newExp = Product::minus(exp1);
@@ -193,6 +198,11 @@ namespace tsym {
                 return res;
         }
 
+        bool areSinAndCos(const Base& base1, const Base& base2, const Base& sin, const Base& cos)
+        {
+            return (base1.isEqual(sin) && base2.isEqual(cos)) || (base1.isEqual(cos) && base2.isEqual(sin));
+        }
+
         BasePtr trigSymbReplacement(Trigonometric::Type type, const BasePtr& arg)
         {
             const BasePtr signTest(
-- 
2.43.0


From bf294385bfb76f5d0efe33ff58570b468228a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 04/46] fix: normal form of a root of a fraction with negative
 numerator or denominator

sqrt(-1/a) was split into sqrt(-1)/sqrt(a), which made simplify() return
Undefined for an expression that is valid for negative a.
---
 src/powernormal.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/powernormal.cpp b/src/powernormal.cpp
index 011abd4..9c71b27 100644
--- a/src/powernormal.cpp
+++ b/src/powernormal.cpp
@@ -67,7 +67,11 @@ tsym::Fraction tsym::PowerNormal::normalNumEvalExp() const
     /* Should have been handled as integer exponent above. */
     assert(rationalExp->numericEval() != 0);
 
-    if (rationalExp->isPositive())
+    if (isUndefined(*Power::create(rationalBase.num, rationalExp))
+      || isUndefined(*Power::create(rationalBase.denom, rationalExp)))
+        /* E.g. sqrt(-1/a) is valid for a < 0, but can't be split. */
+        return normalNonNumEvalExp();
+    else if (rationalExp->isPositive())
         return normalNumEvalPosExp();
     else
         return normalNumEvalNegExp();
-- 
2.43.0


From 23cd086b2b37d952ead8eb1ad9c3b9195451cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:28 +0000
Subject: [PATCH 05/46] fix: derivative of a power with negative base and
 constant exponent was Undefined

The vanishing derivative of the exponent was multiplied by the (Undefined)
logarithm of the base.
---
 src/power.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/power.cpp b/src/power.cpp
index b0d303b..5480940 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -104,8 +104,16 @@ tsym::Fraction tsym::Power::normal(SymbolMap& map) const
 
 tsym::BasePtr tsym::Power::diffWrtSymbol(const Base& symbol) const
 {
-    const BasePtrList summands{Product::create(Logarithm::create(baseRef), expRef->diffWrtSymbol(symbol)),
-      Product::create(expRef, oneOver(baseRef), baseRef->diffWrtSymbol(symbol))};
+    const BasePtr diffBase(baseRef->diffWrtSymbol(symbol));
+    const BasePtr diffExp(expRef->diffWrtSymbol(symbol));
+    BasePtrList summands{Numeric::zero()};
+
+    /* The logarithm is Undefined for a negative base, which is irrelevant for a constant exponent. */
+    if (!isZero(*diffExp))
+        summands.push_back(Product::create(Logarithm::create(baseRef), diffExp));
+
+    if (!isZero(*diffBase))
+        summands.push_back(Product::create(expRef, oneOver(baseRef), diffBase));
 
     return Product::create(clone(), Sum::create(summands));
 }
-- 
2.43.0


From e255ee24f0cf7d0192372f1215989118fffd5eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:56 +0000
Subject: [PATCH 06/46] fix: numeric powers of bases such as 324 = 2^2*3^4 lost
 prime factors

Primes with a multiplicity that is a multiple of the first prime's one were
counted as if they occured equally often: 1/324 evaluated to 1/36.
---
 src/primefac.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primefac.cpp b/src/primefac.cpp
index a864f50..b355fbd 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -156,7 +156,7 @@ namespace tsym {
         auto equalCountOrZero(const std::vector<Int>& primes, int guess)
         {
             for (auto prime = cbegin(primes) + guess; prime != cend(primes); prime += guess)
-                if (*prime != *(prime + (guess - 1)))
+                if (*prime != *(prime + (guess - 1)) || *prime == *(prime - 1))
                     return 0;
 
             return guess;
-- 
2.43.0


From 2790eedccc5a11a1e570c464006f47143f28e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:25 +0000
Subject: [PATCH 07/46] fix: products of more than two numeric powers could
 collapse to one

A contraction like 2^(2/3)*2^(4/5) = 2*2^(7/15) left a nested product in the
factor list, on which merging failed with an error message and an empty
result, i.e. one.
---
 src/productsimpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index c731174..72d8dfc 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -280,9 +280,8 @@ namespace tsym {
             else if (areEqual(res, q1p1))
                 return join(std::move(q1), merge(p, qRest));
 
-            TSYM_ERROR("ProductSimpl: Error merging %S and %S to %S", p1, q1, res);
-
-            return {};
+            /* Happens if one of the factors is a product itself, e.g. 2*2^(1/3) as the result of 2^(2/3)*2^(2/3). */
+            return simplifyWithoutCache(join(std::move(res), merge(pRest, qRest)));
         }
 
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2)
-- 
2.43.0


From f7b86d32bdd5061353978dd6ca51a554b2293fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 08/46] fix: order of root factors with equal bases depended on
 the order of multiplication

sqrt(a)*1/sqrt(a) and 1/sqrt(a)*sqrt(a) weren't equal.
---
 src/productsimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 72d8dfc..fbd117f 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -405,7 +405,7 @@ namespace tsym {
                 ;
             else if (isFractionNumeric(*e1) && isFractionNumeric(*e2) && isInteger(*newExp))
                 /* Exponent addition would hide the fact that the power factors could be undefined. */
-                return {f1, f2};
+                return doPermute(*f1, *f2) ? BasePtrList{f2, f1} : BasePtrList{f1, f2};
 
             return {Power::create(newBase, newExp)};
         }
-- 
2.43.0


From 8d879af768e8b5618b8e3621da3784c05ccb4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:01 +0000
Subject: [PATCH 09/46] fix: integers beyond the range of a double terminated
 the process

Converting an integer or fraction with more than about 1024 bits to a double throws in boost::multiprecision
for half of the values, out of a noexcept hash function.
---
 src/number.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index c939abc..50f7d11 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -222,7 +222,7 @@ namespace tsym {
              * lead to an exact integer solution of the power. Thus, it is save to cast the double power
              * result to an integer after only adding 0.1 (which is somewhat arbitrary, could be any value
              * less than 0.5). */
-            const double exact = std::pow(static_cast<double>(n), 1.0 / static_cast<double>(denomExponent));
+            const double exact = std::pow(Number(n).toDouble(), 1.0 / static_cast<double>(denomExponent));
 
             if (exact > std::numeric_limits<int>::max())
                 /* Result wouldn't fit into an int. */
@@ -288,12 +288,33 @@ tsym::Int tsym::Number::denominator() const
         return 1;
 }
 
+namespace tsym {
+    namespace {
+        std::pair<double, int> scaledToDouble(const Int& n)
+        /* Returns d and e such that n is d*2^e. Integers beyond the range of a double can't be converted directly. */
+        {
+            static const unsigned maxBits = 1000;
+            const unsigned bits = n == 0 ? 0 : msb(abs(n));
+
+            if (bits < maxBits)
+                return {static_cast<double>(n), 0};
+
+            const Int shifted = abs(n) >> (bits - 64);
+
+            return {(n < 0 ? -1.0 : 1.0) * static_cast<double>(shifted), static_cast<int>(bits - 64)};
+        }
+    }
+}
+
 double tsym::Number::toDouble() const
 {
-    if (isRational())
-        return boost::rational_cast<double>(getRational());
-    else
+    if (isDouble())
         return getDouble();
+
+    const auto [num, numShift] = scaledToDouble(numerator());
+    const auto [denom, denomShift] = scaledToDouble(denominator());
+
+    return std::ldexp(num / denom, numShift - denomShift);
 }
 
 namespace tsym {
-- 
2.43.0


From 1c646d7156f11214c6ad427cc41fb0747abd4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 10/46] fix: order and sign of rational numbers that agree in
 double precision

---
 src/number.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/number.cpp b/src/number.cpp
index 50f7d11..ab8af49 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -345,7 +345,10 @@ bool tsym::operator==(const Number& lhs, const Number& rhs)
 
 bool tsym::operator<(const Number& lhs, const Number& rhs)
 {
-    return lhs.toDouble() < rhs.toDouble();
+    if (lhs.isRational() && rhs.isRational())
+        return lhs.numerator() * rhs.denominator() < rhs.numerator() * lhs.denominator();
+    else
+        return lhs.toDouble() < rhs.toDouble();
 }
 
 std::ostream& tsym::operator<<(std::ostream& stream, const Number& rhs)
-- 
2.43.0


From 43aa3ada73edb21cc84b59f110fde910321f7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:54 +0000
Subject: [PATCH 11/46] fix: simplify did not terminate for terms whose normal
 form alternates

---
 src/functions.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index ceb4b2e..5fd5d00 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -1,8 +1,10 @@
 
 #include "functions.h"
 #include <boost/range/algorithm/find.hpp>
+#include <boost/range/algorithm/find_if.hpp>
 #include <chrono>
 #include "basefct.h"
+#include "baseptrlist.h"
 #include "constant.h"
 #include "fraction.h"
 #include "logarithm.h"
@@ -119,17 +121,19 @@ tsym::Var tsym::simplify(const Var& arg)
     auto before = clock::now();
     const BasePtr& rep = arg.get();
     const BasePtr expanded(rep->expand());
-    BasePtr normalizedLast(rep);
     BasePtr normalizedNext(rep->normal());
+    BasePtrList normalized{rep};
 
     if (isUndefined(*normalizedNext))
         return Var(normalizedNext);
 
-    while (normalizedNext->isDifferent(*normalizedLast)) {
+    while (boost::find_if(normalized, [&](const auto& ptr) { return ptr->isEqual(*normalizedNext); })
+      == cend(normalized)) {
         /* Though it's probably not supposed to happen, there has been an expression that changed
          * upon a second normalization. Most of the time, the first normalization will directly
-         * yield the simplest representation. */
-        normalizedLast = normalizedNext;
+         * yield the simplest representation. Some terms with numeric powers even alternate between
+         * several representations, hence all of them must be taken into account. */
+        normalized.push_back(normalizedNext);
         normalizedNext = normalizedNext->normal();
     }
 
-- 
2.43.0


From d756c73f88085e0d8adb7b41cc256a3dd64c681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:24 +0000
Subject: [PATCH 12/46] fix: define the declared function normal

---
 src/functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index 5fd5d00..2b52024 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -114,6 +114,11 @@ tsym::Var tsym::expand(const Var& arg)
     return Var(arg.get()->expand());
 }
 
+tsym::Var tsym::normal(const Var& arg)
+{
+    return Var(arg.get()->normal());
+}
+
 tsym::Var tsym::simplify(const Var& arg)
 /* Currently, only normalization and expansion is tested for the simplest representation. */
 {
-- 
2.43.0


From b725d3fd7627ad5bd5b4ad1cfc4d066b1e5a045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:04 +0000
Subject: [PATCH 13/46] fix: determinant of a matrix with a vanishing column
 was Undefined with the default algorithm

---
 src/directsolve.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 69ec938..d3474d7 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -30,6 +30,9 @@ std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::
         }
     }
 
+    if (coeff(idx, row) == 0)
+        throw std::invalid_argument("Coefficient matrix is singular");
+
     return idx;
 }
 
-- 
2.43.0


From 05be665ca61170432d801e6335ed2955a9e91901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:16 +0000
Subject: [PATCH 14/46] fix: matrix entries that are zero only after
 simplification were used as pivots

---
 src/directsolve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index d3474d7..7df012a 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -56,6 +56,11 @@ unsigned tsym::eliminateGauss(SquareMatrixAdaptor<>& coeff, std::optional<Vector
     const std::size_t dim = coeff.dim;
     unsigned rowSwaps = 0;
 
+    /* Entries that only turn out to be zero by simplification must not be selected as pivots. */
+    for (std::size_t i = 0; i < dim; ++i)
+        for (std::size_t j = 0; j < dim; ++j)
+            coeff(i, j) = simplify(coeff(i, j));
+
     for (std::size_t j = 0; j + 1 < dim; ++j) {
         const std::size_t pivIndex = piv(coeff, j);
 
-- 
2.43.0


From 3f80eafb253b9550dc872183f150f65c0915873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:34 +0000
Subject: [PATCH 15/46] fix: names of symbols that start with the name of a
 constant could not be parsed

---
 src/parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 38e31a0..25e2505 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -63,8 +63,11 @@ namespace tsym {
                 functions.add("sin", Fct::SIN)("cos", Fct::COS)("tan", Fct::TAN)("asin", Fct::ASIN)("acos", Fct::ACOS)(
                   "atan", Fct::ATAN)("sqrt", Fct::SQRT)("log", Fct::LOG);
 
-                scalar = no_case[qi::lit("pi")][bind(&QiParser::pushPi)]
-                  | no_case[qi::lit("euler")][bind(&QiParser::pushEuler)] | symbol[bindWithArg(&QiParser::pushSymbol)]
+                /* Names of symbols can start with the name of a constant. */
+                endOfName = !(qi::ascii::alnum | '_');
+
+                scalar = (no_case[qi::lit("pi")] >> endOfName)[bind(&QiParser::pushPi)]
+                  | (no_case[qi::lit("euler")] >> endOfName)[bind(&QiParser::pushEuler)] | symbol[bindWithArg(&QiParser::pushSymbol)]
                   | floatingPoint[bindWithArg(&QiParser::pushDouble)] | integer[bindWithArg(&QiParser::pushInteger)];
 
                 oneArgFunction = (no_case[functions] >> '(' >> expression >> ')')[bindWithArg(&QiParser::toFunction)];
@@ -245,6 +248,7 @@ namespace tsym {
             SymbolParser<Iterator> symbol{};
             BigIntParser<Iterator> integer{};
             Rule expression;
+            NoSpaceRule endOfName;
             NoSpaceRule scalar;
             Rule oneArgFunction;
             Rule twoArgFunction;
-- 
2.43.0


From 483b60ce4a1c8e5f33a1f8328aeae1c1f117c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:48 +0000
Subject: [PATCH 16/46] fix: sums with contracted sine and cosine squares kept
 several numbers

---
 src/sumsimpl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sumsimpl.cpp b/src/sumsimpl.cpp
index db4216d..81942dd 100644
--- a/src/sumsimpl.cpp
+++ b/src/sumsimpl.cpp
@@ -18,6 +18,7 @@ namespace tsym {
         BasePtrList simplTwoSummandsWithSum(const BasePtr& s1, const BasePtr& s2);
         BasePtrList merge(const BasePtrList& l1, const BasePtrList& l2);
         BasePtrList mergeNonEmpty(const BasePtrList& p, const BasePtrList& q);
+        BasePtrList prepend(const BasePtr& first, BasePtrList&& list);
         BasePtrList simplTwoSummandsWithoutSum(const BasePtr& s1, const BasePtr& s2);
         BasePtrList simplTwoNumerics(const BasePtr& s1, const BasePtr& s2);
         bool haveEqualNonConstTerms(const BasePtr& s1, const BasePtr& s2);
@@ -86,17 +87,26 @@ namespace tsym {
             else if (res.size() == 1 && isZero(*res.front()))
                 return merge(pRest, qRest);
             else if (res.size() == 1)
-                return join(std::move(res), merge(pRest, qRest));
+                return prepend(res.front(), merge(pRest, qRest));
             else if (areEqual(res, p1q1))
-                return join(std::move(p1), merge(pRest, q));
+                return prepend(p1, merge(pRest, q));
             else if (areEqual(res, q1p1))
-                return join(std::move(q1), merge(p, qRest));
+                return prepend(q1, merge(p, qRest));
 
             TSYM_ERROR("Error merging non-empty lists: %S, %S", p, q);
 
             return {};
         }
 
+        BasePtrList prepend(const BasePtr& first, BasePtrList&& list)
+        /* The contraction of e.g. sin(a)^2 + cos(a)^2 results in summands that precede those left of them. */
+        {
+            if (list.empty() || areEqual(simplTwoSummands(first, list.front()), {first, list.front()}))
+                return join(BasePtr{first}, std::move(list));
+            else
+                return merge({first}, list);
+        }
+
         BasePtrList simplTwoSummandsWithoutSum(const BasePtr& s1, const BasePtr& s2)
         {
             if (isZero(*s1))
-- 
2.43.0


From 93a86c3dbf3e465bdf6a3981a3973b347702edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 17/46] fix: trigonometric functions of products like (2 +
 sqrt(3))*(sqrt(2) - sqrt(6)) recursed infinitely

---
 src/trigonometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index dd9042b..054f155 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -120,7 +120,7 @@ tsym::BasePtr tsym::Trigonometric::create(Type type, const BasePtr& arg)
         return Undefined::create();
     else if (isFunction(*arg))
         return createFromFunction(type, arg);
-    else if (doesSymmetryApply(arg))
+    else if (doesSymmetryApply(arg) && !doesSymmetryApply(Product::minus(arg)))
         return createBySymmetry(type, arg);
     else if (arg->numericEval())
         return createNumerically(type, arg);
-- 
2.43.0


From ff24e8e6030998ddc8fde795a4849fbb115d9aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 18/46] fix: arc tangent of negative double numbers was off by
 2*pi

---
 src/numtrigosimpl.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 6bb5aed..eaf3393 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -444,9 +444,6 @@ void tsym::NumTrigoSimpl::atan()
         resultTimesSign();
     else if (isDoubleNumeric(*origArg)) {
         reset();
-        compNumerically([](auto arg) {
-            const double result = std::atan(arg);
-            return result >= 0 ? result : 2 * M_PI + result;
-        });
+        compNumerically([](auto arg) { return std::atan(arg); });
     }
 }
-- 
2.43.0


From 6fa69128af5ca67b369fa4b6c9f1e49f9839b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:19 +0000
Subject: [PATCH 19/46] fix: logarithm of an even power of a negative base was
 Undefined

---
 src/logarithm.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 8812c4b..ff1ba29 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -85,7 +85,14 @@ tsym::BasePtr tsym::Logarithm::createFromConstant(const BasePtr& arg)
 
 tsym::BasePtr tsym::Logarithm::createFromPower(const BasePtr& arg)
 {
-    return Product::create(arg->exp(), create(arg->base()));
+    const BasePtr exp(arg->exp());
+    const BasePtr base(arg->base());
+
+    if (base->isNegative() && isInteger(*exp) && isInteger(*Product::create(Numeric::half(), exp)))
+        /* The argument is positive, log(base) isn't defined. */
+        return Product::create(exp, create(Product::minus(base)));
+
+    return Product::create(exp, create(base));
 }
 
 std::optional<tsym::Number> tsym::Logarithm::numericEval() const
-- 
2.43.0


From 39f1f4d463e0d01f60a13354584692a83249a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:30 +0000
Subject: [PATCH 20/46] fix: trigonometric functions of large numbers shifted
 the argument by one period at a time

---
 src/numtrigosimpl.cpp | 15 ++++++++++-----
 src/trigonometric.cpp |  4 ++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index eaf3393..13fadf4 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -164,6 +164,11 @@ void tsym::NumTrigoSimpl::adjustNumericArg()
 void tsym::NumTrigoSimpl::adjustArgRange()
 {
     const BasePtr twoPi(timesPi(2, 1));
+    const auto turns = [this]() { return std::floor(arg->numericEval()->toDouble() / (2.0 * M_PI)); };
+
+    /* Large arguments, e.g. 1.23456789e10, can't be shifted one by one. */
+    for (double n = turns(); std::isfinite(n) && std::abs(n) > 1.0; n = turns())
+        arg = Sum::create(arg, Product::minus(Numeric::create(Int(n)), twoPi));
 
     /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. */
     while (arg->isNegative())
@@ -274,13 +279,13 @@ std::optional<tsym::BasePtr> tsym::NumTrigoSimpl::getValueNumEval(
 }
 
 void tsym::NumTrigoSimpl::compNumericalSin()
-/* Shifts argument back to a plain Numeric, i.e., division by Constant Pi and multiplication
- * with (double) Numeric Pi. Then, the STL sine function is used. */
+/* The STL functions take the original argument, which is a double Numeric. The shifted argument is less accurate. */
 {
-    arg = Product::create(arg, Power::oneOver(Pi));
-    arg = Product::create(arg, Numeric::create(PI));
+    const bool isCosine = type == Trigonometric::Type::COS;
+
+    reset();
 
-    compNumerically([](auto arg) { return std::sin(arg); });
+    compNumerically([isCosine](auto arg) { return isCosine ? std::cos(arg) : std::sin(arg); });
 }
 
 template <class Fct> void tsym::NumTrigoSimpl::compNumerically(Fct&& eval)
diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 054f155..a8fdc10 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -288,6 +288,10 @@ tsym::BasePtr tsym::Trigonometric::shiftArgIntoRange(Type type, BasePtr arg)
 {
     const auto [lower, upper] = interval(type);
     const BasePtr& endFactor = type == Type::ATAN ? Numeric::mOne() : Numeric::one();
+    const auto turns = [&arg]() { return std::floor(arg->numericEval()->toDouble() / (2.0 * M_PI)); };
+
+    for (double n = turns(); std::isfinite(n) && std::abs(n) > 1.0; n = turns())
+        arg = Sum::create(arg, Product::minus(Numeric::create(Int(n)), timesPi(2)));
 
     while (arg->numericEval() >= upper->numericEval())
         arg = Sum::create(arg, timesPi(-2));
-- 
2.43.0


From 4ccbf0dfa3f030badce7e6fcf955032e0c4f994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:41 +0000
Subject: [PATCH 21/46] fix: order of constants and powers of constants or
 numbers depended on the order of multiplication

---
 src/order.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/order.cpp b/src/order.cpp
index a9243a0..b51f0fc 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -101,7 +101,12 @@ bool tsym::doPermuteBothPower(const Base& left, const Base& right)
     const Base& lExp(*left.exp());
     const Base& rExp(*right.exp());
 
-    if (lBase.isDifferent(rBase))
+    if (isConstant(lBase) && isNumeric(rBase))
+        /* A Constant without exponent is placed before powers of numbers, too. */
+        return false;
+    else if (isNumeric(lBase) && isConstant(rBase))
+        return true;
+    else if (lBase.isDifferent(rBase))
         return doPermute(lBase, rBase);
     else
         return doPermute(lExp, rExp);
@@ -162,7 +167,12 @@ bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
     if (isNumeric(left))
         return false;
     /* We differ from Cohen's algorithm here, as he didn't take a Constant type into account. It is
-     * simply the leftmost part in any expression, except in comparison with a Numeric. */
+     * simply the leftmost part in any expression, except in comparison with a Numeric or with powers
+     * of Constants, possibly as part of a product. */
+    else if (isConstant(left) && isPower(right) && isConstant(*right.base()))
+        return left.isEqual(*right.base()) ? doPermute(*Numeric::one(), *right.exp()) : doPermute(left, *right.base());
+    else if (isConstant(left) && isProduct(right))
+        return !doPermuteLeftProduct(right, left);
     else if (isConstant(left) && !isNumeric(right))
         return false;
     else if (isProduct(left) && isPowerSumSymbolOrFunction(right))
-- 
2.43.0


From 8b03d1bf2c1bec353a8488e4e2cd7582f32e6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:16 +0000
Subject: [PATCH 22/46] fix: order of atan2 functions with equal first
 arguments depended on the order of construction

---
 src/order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/order.cpp b/src/order.cpp
index b51f0fc..b34ccea 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -152,6 +152,9 @@ bool tsym::doPermuteBothFunction(const Base& left, const Base& right)
 
     if (lName != rName)
         return lName > rName;
+    else if (left.operands().front()->isEqual(*right.operands().front()))
+        /* The second argument of atan2. */
+        return doPermute(*left.operands().back(), *right.operands().back());
     else
         /* If the function argument is a sum or a product, this differs from Cohen's algorithm: the
          * operands are compared by taking the last different operand as significant, as it is the
-- 
2.43.0


From 5ef7505702b98f1a8f037d7dd9c2c68965535e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:59 +0000
Subject: [PATCH 23/46] fix: shift numeric trigonometric arguments by their
 value, not by isNegative

sin((2*sqrt(2) - pi)^3) aborted, as the negative power isn't recognised by
isNegative and thus wasn't shifted into the first period.
---
 src/numtrigosimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 13fadf4..8f34c48 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -171,7 +171,7 @@ void tsym::NumTrigoSimpl::adjustArgRange()
         arg = Sum::create(arg, Product::minus(Numeric::create(Int(n)), twoPi));
 
     /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. */
-    while (arg->isNegative())
+    while (arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
 
     while (arg->numericEval() >= twoPi->numericEval())
-- 
2.43.0


From dd884e3ab806884f1cd2ef5d91d0124f2439e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:59 +0000
Subject: [PATCH 24/46] fix: no endless shifting of trigonometric arguments
 beyond the range of double

cos(pi^(2018^(5/2))) didn't return.
---
 src/numtrigosimpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 8f34c48..4e7e182 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -133,6 +133,9 @@ void tsym::NumTrigoSimpl::computeSinCosTan()
     if (isArgRationalNonZeroNumeric())
         /* This can't be simplified, break early. */
         return;
+    else if (!std::isfinite(arg->numericEval()->toDouble()))
+        /* Too large for the numerical evaluation, shifting it wouldn't come to an end. */
+        return;
 
     prepareSinCosTan();
     detourSinCosTan();
-- 
2.43.0


From bad74253f07ee11a4e9f399724ed80f4545c1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:19 +0000
Subject: [PATCH 25/46] fix: evaluate fractional powers of numbers without
 leaving the range of double

The numerical value of 2^(2999/3000) was infinity, the one of 2^(-2999/3001) zero,
as base^numerator was evaluated first.
---
 src/number.cpp | 10 ++++++----
 src/number.h   |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index ab8af49..1e0fc5c 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -189,7 +189,7 @@ tsym::Number tsym::Number::computeRationalPower(const Number& exponent) const
 {
     /* The base is positive and neither 1 or 0. The exponent is positive or negative. */
     auto result = computeNumPower(exponent.numerator());
-    computeDenomPower(exponent.denominator(), result);
+    computeDenomPower(exponent, result);
 
     return result;
 }
@@ -241,18 +241,20 @@ namespace tsym {
     }
 }
 
-void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) const
+void tsym::Number::computeDenomPower(const Number& exponent, Number& result) const
 /* For e.g. (1/2)^(2/3), this does the part (1/2)^(1/3), where an attempt is made to resolve the
  * power exactly, i.e., check for simple bases matching the numerator/denominator with the given
- * denominator exponent (e.g. 8^(1/3) = 2). */
+ * denominator exponent (e.g. 8^(1/3) = 2). If that fails, the power is evaluated as a whole, because the first part
+ * doesn't need to be in the range of a double. */
 {
+    const Int denomExponent = exponent.denominator();
     const Int numTest = tryGetBase(result.numerator(), denomExponent);
     const Int denomTest = tryGetBase(result.denominator(), denomExponent);
 
     if (denomExponent == 1)
         return;
     else if (numTest == 0 || denomTest == 0)
-        result = {std::pow(result.toDouble(), 1.0 / static_cast<double>(denomExponent))};
+        result = {std::pow(toDouble(), exponent.toDouble())};
     else
         result = {numTest, denomTest};
 }
diff --git a/src/number.h b/src/number.h
index b6113b3..f0aee4a 100644
--- a/src/number.h
+++ b/src/number.h
@@ -70,7 +70,7 @@ namespace tsym {
         std::optional<Number> computeIrrationalPower(const Number& exponent) const;
         Number computeRationalPower(const Number& exponent) const;
         Number computeNumPower(const Int& numExponent) const;
-        void computeDenomPower(const Int& denomExponent, Number& result) const;
+        void computeDenomPower(const Number& exponent, Number& result) const;
 
         Rational getRational() const;
 
-- 
2.43.0


From 608b90dfd01ab49fc3ff96bddc393efa9a1e45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:52 +0000
Subject: [PATCH 26/46] fix: recognise roots of negative numerically evaluable
 bases

A power with a non-integer exponent was only recognised as complex if the sign
logic identified the base as negative. Bases like atan(sqrt(pi)/log(1/2)), whose
numeric value is negative, slipped through, and numeric evaluation of functions
of such a power failed with an exception.
---
 src/powersimpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/powersimpl.cpp b/src/powersimpl.cpp
index 5b36bc1..faeed16 100644
--- a/src/powersimpl.cpp
+++ b/src/powersimpl.cpp
@@ -32,7 +32,10 @@ namespace tsym {
 
         bool doesInvolveComplexNumbers(const BasePtr& base, const BasePtr& exp)
         {
-            if (const auto nExp = exp->numericEval(); base->isNegative() && nExp)
+            const auto nBase = base->numericEval();
+            const auto nExp = exp->numericEval();
+
+            if (nExp && (base->isNegative() || (nBase && *nBase < 0)))
                 return !isInt(*nExp);
             else
                 return false;
-- 
2.43.0


From bd07ca0a521a7bb4228aa08fe0b68d64259c41c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 27/46] fix: no logarithm of numerically negative arguments

A negative argument was only recognised by the sign logic, and numeric evaluation
of log(9/2/(sqrt(6) - 3*sqrt(3))) failed with an exception later on.
---
 src/logarithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index ff1ba29..bef585a 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -54,7 +54,7 @@ bool tsym::Logarithm::isInvalidArg(const Base& arg)
         ;
     else if (arg.isNegative())
         invalid = true;
-    else if (arg.numericEval() == 0)
+    else if (const auto numArg = arg.numericEval(); numArg && *numArg <= 0)
         invalid = true;
 
     if (invalid)
-- 
2.43.0


From 4295f33c744b188f419b52e78fb55791dc9615f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 28/46] fix: flatten products that result from merging factors

((2/3)*1009^(-1/3)*(2/3)^(2/3))^(3/4) was a product with a product as operand.
---
 src/productsimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index fbd117f..5dce2ca 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -273,7 +273,7 @@ namespace tsym {
                 return merge(pRest, qRest);
             else if (res.size() == 1 && isOne(*res.front()))
                 return merge(pRest, qRest);
-            else if (res.size() == 1)
+            else if (res.size() == 1 && !isProduct(*res.front()))
                 return join(std::move(res), merge(pRest, qRest));
             else if (areEqual(res, p1q1))
                 return join(std::move(p1), merge(pRest, q));
-- 
2.43.0


From 8a379f93256513b94c371a08547b5a2c8305f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 29/46] fix: leave trigonometric functions of unresolvably
 large arguments alone

The shift of sin(2^(25*sqrt(5))) into the first period has no correct digit in double
precision, and an assertion failed for the resulting quadrant.
---
 src/numtrigosimpl.cpp | 16 ++++++++++++++--
 src/numtrigosimpl.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 4e7e182..b1733e9 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -133,8 +133,8 @@ void tsym::NumTrigoSimpl::computeSinCosTan()
     if (isArgRationalNonZeroNumeric())
         /* This can't be simplified, break early. */
         return;
-    else if (!std::isfinite(arg->numericEval()->toDouble()))
-        /* Too large for the numerical evaluation, shifting it wouldn't come to an end. */
+    else if (isArgTooLarge())
+        /* Too large for the numerical evaluation, shifting it wouldn't come to an end, or end up anywhere. */
         return;
 
     prepareSinCosTan();
@@ -149,6 +149,18 @@ bool tsym::NumTrigoSimpl::isArgRationalNonZeroNumeric() const
         return isRationalNumeric(*arg);
 }
 
+bool tsym::NumTrigoSimpl::isArgTooLarge() const
+{
+    const double value = std::abs(arg->numericEval()->toDouble());
+
+    if (!std::isfinite(value))
+        return true;
+    else if (isNumeric(*arg) || isNumeric(*Product::create(arg, Power::oneOver(Pi))))
+        return false;
+    else
+        return value > 1.0e15;
+}
+
 void tsym::NumTrigoSimpl::prepareSinCosTan()
 {
     if (isNumeric(*arg))
diff --git a/src/numtrigosimpl.h b/src/numtrigosimpl.h
index 3f8e1a1..0bcf983 100644
--- a/src/numtrigosimpl.h
+++ b/src/numtrigosimpl.h
@@ -33,6 +33,7 @@ namespace tsym {
         bool isNotAnInverseFct() const;
         void computeSinCosTan();
         bool isArgRationalNonZeroNumeric() const;
+        bool isArgTooLarge() const;
         void prepareSinCosTan();
         void adjustNumericArg();
         void adjustArgRange();
-- 
2.43.0


From 52d1d01d38ec625802f5a1913fec8023791f98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:49 +0000
Subject: [PATCH 30/46] fix: collect equal summands whose constant coefficient
 is a sum

(1 + sqrt(2))*(1 + a)*b occurring twice in a sum was left as two summands.
---
 src/sumsimpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sumsimpl.cpp b/src/sumsimpl.cpp
index 81942dd..63eaad3 100644
--- a/src/sumsimpl.cpp
+++ b/src/sumsimpl.cpp
@@ -162,6 +162,9 @@ namespace tsym {
 
             if (!isSum(*sum))
                 return {Product::create(sum, s1->nonConstTerm())};
+            else if (haveEqualNonNumericTerms(s1, s2))
+                /* The coefficient is a sum already, e.g. (1 + sqrt(2))*(1 + a)*b + 2*(1 + sqrt(2))*(1 + a)*b. */
+                return simplEqualNonNumericTerms(s1, s2);
             else if (doPermute(*s1, *s2))
                 return {s2, s1};
             else
-- 
2.43.0


From 1f4ee403b9a21495a43418260335e87b161a9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:49 +0000
Subject: [PATCH 31/46] fix: contract numbers that result from merging numeric
 powers

(-1/3*18^(-2/3)*6^(-1/3))/(-3*18^(2/3)*6^(1/3)) was a product with two numbers.
---
 src/productsimpl.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 5dce2ca..4ce063c 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -38,6 +38,7 @@ namespace tsym {
         BasePtrList simplTwoFactorsWithProduct(const BasePtr& f1, const BasePtr& f2);
         BasePtrList merge(const BasePtrList& l1, const BasePtrList& l2);
         BasePtrList mergeNonEmpty(const BasePtrList& p, const BasePtrList& q);
+        BasePtrList prepend(const BasePtr& first, BasePtrList&& list);
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2);
         BasePtrList simplTwoConst(const BasePtr& f1, const BasePtr& f2);
         BasePtrList simplTwoNumerics(const BasePtr& f1, const BasePtr& f2);
@@ -276,14 +277,23 @@ namespace tsym {
             else if (res.size() == 1 && !isProduct(*res.front()))
                 return join(std::move(res), merge(pRest, qRest));
             else if (areEqual(res, p1q1))
-                return join(std::move(p1), merge(pRest, q));
+                return prepend(p1, merge(pRest, q));
             else if (areEqual(res, q1p1))
-                return join(std::move(q1), merge(p, qRest));
+                return prepend(q1, merge(p, qRest));
 
             /* Happens if one of the factors is a product itself, e.g. 2*2^(1/3) as the result of 2^(2/3)*2^(2/3). */
             return simplifyWithoutCache(join(std::move(res), merge(pRest, qRest)));
         }
 
+        BasePtrList prepend(const BasePtr& first, BasePtrList&& list)
+        /* Merging numeric powers, e.g. 18^(-1/3)*6^(-2/3) = 1/6*3^(-1/3), can result in another number. */
+        {
+            const bool haveTwoNumerics = isNumeric(*first) && !list.empty() && isNumeric(*list.front());
+            BasePtrList joined = join(BasePtr{first}, std::move(list));
+
+            return haveTwoNumerics ? simplifyWithoutCache(joined) : joined;
+        }
+
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2)
         {
             if (isOne(*f1))
-- 
2.43.0


From 17f2553d6b87851248c2044112d4337456a4793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:38 +0000
Subject: [PATCH 32/46] fix: no endless shifting in inverse trigonometric
 functions of unresolvably large arguments

The arguments of asin(sin(3^36)) and the like were shifted by multiples of 2*pi computed from a
numerical evaluation without a correct digit, which didn't come to an end.
---
 src/trigonometric.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index a8fdc10..2681b2b 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -234,10 +234,15 @@ tsym::BasePtr tsym::Trigonometric::createFromTrigo(Type type, const BasePtr& arg
     else if (isTanOfAtan2(type, otherType))
         /* Must be handeled separately due to different function argument: */
         return atan2ArgEval(other->arg1, other->arg2);
-    else if (isThisTheInverse(type, otherType) && arg->numericEval())
+    else if (isThisTheInverse(type, otherType) && arg->numericEval()) {
+        if (std::abs(other->arg1->numericEval()->toDouble()) > 1.0e12)
+            /* Shifting relies on the numerical evaluation of the argument, which has too few correct digits here. */
+            return createInstance(type, {arg});
+
         /* If the argument lies in an invalid range for the inner trigonometric function, the result
          * has been Undefined in the first place, thus no additional checks necessary here. */
         return shiftArgIntoRange(type, other->arg1);
+    }
     else
         return createFromTrigoNoInverse(type, arg);
 }
-- 
2.43.0


From c938929b4061ec710f77286754d9bb9efa41db10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 33/46] fix: operations on doubles and fractions beyond the
 range of a double terminated the process

(2/3)^840*pi has a double value, but numerator and denominator of the fraction alone don't.
---
 src/number.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number.h b/src/number.h
index f0aee4a..5d9cec0 100644
--- a/src/number.h
+++ b/src/number.h
@@ -51,12 +51,12 @@ namespace tsym {
 
             Rep operator()(const Rational& lhs, double rhs)
             {
-                return Operation{}(boost::rational_cast<double>(lhs), rhs);
+                return Operation{}(Number{lhs.numerator(), lhs.denominator()}.toDouble(), rhs);
             }
 
             Rep operator()(double lhs, const Rational& rhs)
             {
-                return Operation{}(lhs, boost::rational_cast<double>(rhs));
+                return Operation{}(lhs, Number{rhs.numerator(), rhs.denominator()}.toDouble());
             }
         };
 
-- 
2.43.0


From 39361e01348edf1977146604b0430e80918aaf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:42 +0000
Subject: [PATCH 34/46] fix: sub- and superscripts of greek letters were lost
 in unicode output

alpha_1 and alpha_2 were both printed as alpha.
---
 src/namefct.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/namefct.cpp b/src/namefct.cpp
index cc281f2..9f37c12 100644
--- a/src/namefct.cpp
+++ b/src/namefct.cpp
@@ -100,8 +100,10 @@ std::string tsym::unicode(NameView name)
 {
     if (!isGreekLetter(name.value))
         return concat(name);
-    else
-        return unicodeForGreekLetter(name.value);
+
+    const std::string letter = unicodeForGreekLetter(name.value);
+
+    return concat({letter, name.subscript, name.superscript});
 }
 
 std::string tsym::tex(NameView name)
-- 
2.43.0


From f2d94364e95ada35a0180bffd33d4e761b31ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 35/46] fix: integers with leading zeros were parsed as octal
 numbers

012 was 10, and 08 made the parser throw.
---
 src/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 25e2505..c97b0c9 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -143,7 +143,10 @@ namespace tsym {
 
             void pushInteger(const std::string& digits)
             {
-                stack.push(Numeric::create(Int(digits)));
+                const auto start = digits.find_first_not_of('0');
+
+                /* A leading zero would be taken as the prefix of an octal number. */
+                stack.push(start == std::string::npos ? Numeric::zero() : Numeric::create(Int(digits.substr(start))));
             }
 
             void toFunction(Fct type)
-- 
2.43.0


From 6a1b84b1530adb129384861c94c316c5fd1fdff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 36/46] fix: products of a double and a fraction were printed
 with a zero factor

2.7182818*a/(b*c) was printed as 0*a/(b*c).
---
 src/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/printer.cpp b/src/printer.cpp
index 3ab7fb5..cc6bf1f 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -221,7 +221,7 @@ namespace tsym {
                         frac.first.push_back(origFactor);
                 }
 
-                if (frac.first.empty() || frac.second.size() <= 1 || !isNumeric(*frac.first.front()))
+                if (frac.first.empty() || frac.second.size() <= 1 || !isRationalNumeric(*frac.first.front()))
                     return frac;
 
                 /* Adjust the previous logic and move factors like 2/3 to numerator/denominator. */
-- 
2.43.0


From b9a7147a8e570d328df7408c896801d85c0b2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 37/46] fix: large powers of minus one

(-a)^12345678901 ran into an assertion of the prime factorisation.
---
 src/numpowersimpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/numpowersimpl.cpp b/src/numpowersimpl.cpp
index 05bdb22..a701c18 100644
--- a/src/numpowersimpl.cpp
+++ b/src/numpowersimpl.cpp
@@ -128,6 +128,10 @@ void tsym::NumPowerSimpl::shiftNegPreFac()
 
 void tsym::NumPowerSimpl::computeAllPos()
 {
+    if (result.base == 1)
+        /* The exponent may be too large for the resolution into primes. */
+        result.exp = 1;
+
     if (areValuesSmallEnough())
         cancel();
     else if (isInt(result.exp))
-- 
2.43.0


From 8786f4c04ff0cb830d1c9edf21111a45881c09c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:32 +0000
Subject: [PATCH 38/46] fix: contract powers that merging other factors of a
 product brought forth

---
 src/productsimpl.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 4ce063c..03ddfd7 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -1,5 +1,6 @@
 
 #include "productsimpl.h"
+#include <boost/algorithm/cxx11/any_of.hpp>
 #include <boost/functional/hash.hpp>
 #include <boost/range/algorithm/find_if.hpp>
 #include <boost/range/numeric.hpp>
@@ -275,7 +276,7 @@ namespace tsym {
             else if (res.size() == 1 && isOne(*res.front()))
                 return merge(pRest, qRest);
             else if (res.size() == 1 && !isProduct(*res.front()))
-                return join(std::move(res), merge(pRest, qRest));
+                return prepend(res.front(), merge(pRest, qRest));
             else if (areEqual(res, p1q1))
                 return prepend(p1, merge(pRest, q));
             else if (areEqual(res, q1p1))
@@ -286,12 +287,16 @@ namespace tsym {
         }
 
         BasePtrList prepend(const BasePtr& first, BasePtrList&& list)
-        /* Merging numeric powers, e.g. 18^(-1/3)*6^(-2/3) = 1/6*3^(-1/3), can result in another number. */
+        /* Merging numeric powers, e.g. 18^(-1/3)*6^(-2/3) = 1/6*3^(-1/3), can result in another number, and merging
+         * powers of powers, e.g. (a^2)^(4/3)*(a^2)^(2/3) = a^4, in another power of the first base. */
         {
             const bool haveTwoNumerics = isNumeric(*first) && !list.empty() && isNumeric(*list.front());
+            const bool isContractable = haveTwoNumerics || boost::algorithm::any_of(list, [&first](const auto& factor) {
+                return !first->isConst() && haveEqualBases(*first, *factor) && simplTwoFactors(first, factor).size() == 1;
+            });
             BasePtrList joined = join(BasePtr{first}, std::move(list));
 
-            return haveTwoNumerics ? simplifyWithoutCache(joined) : joined;
+            return isContractable ? simplifyWithoutCache(joined) : joined;
         }
 
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2)
-- 
2.43.0


From 2ebaa7d6c2b6991bda0a4b886c7bf39a78e029e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:00 +0000
Subject: [PATCH 39/46] fix: print parentheses around sums that evaluate to
 large integers

---
 src/printer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/printer.cpp b/src/printer.cpp
index cc6bf1f..59b7ec4 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -89,10 +89,7 @@ namespace tsym {
             bool isScalarPowerBase(const BasePtr& base)
             {
                 const auto isPositiveInt = [](const auto& base) {
-                    if (const auto n = base->numericEval())
-                        return isInt(*n) && *n > 0;
-
-                    return false;
+                    return isNumeric(*base) && isInt(*base->numericEval()) && base->isPositive();
                 };
 
                 return isSymbol(*base) || isConstant(*base) || isFunction(*base) || isPositiveInt(base);
-- 
2.43.0


From a05ea4e42a1c0667e80de9b54fabc49813a8e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:22 +0000
Subject: [PATCH 40/46] fix: count the last step of an exact pseudo-division

---
 src/poly.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poly.cpp b/src/poly.cpp
index 9fd124f..6b85f7b 100644
--- a/src/poly.cpp
+++ b/src/poly.cpp
@@ -101,10 +101,11 @@ namespace tsym {
 
                 remainder = Sum::create(Product::create(lCoeffV, remainder), Product::minus(v, tmp))->expand();
 
+                ++sigma;
+
                 if (isZero(*remainder))
                     break;
 
-                ++sigma;
                 m = remainder->degree(x);
             }
 
-- 
2.43.0


From 4628d76fb4750c2059edcd1d6c29f4bb80d6cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:18 +0000
Subject: [PATCH 41/46] fix: cancel fractions with expanded numerator and
 denominator

---
 src/fraction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fraction.cpp b/src/fraction.cpp
index 613e692..9f8a990 100644
--- a/src/fraction.cpp
+++ b/src/fraction.cpp
@@ -24,8 +24,8 @@ namespace tsym {
         Fraction cancelNonTrivial(const Fraction& f)
         {
             const BasePtr gcd(poly::gcd(f.num, f.denom));
-            const BasePtr newDenom(poly::divide(f.denom, gcd).front());
-            const BasePtr newNum(poly::divide(f.num, gcd).front());
+            const BasePtr newDenom(poly::divide(f.denom->expand(), gcd).front());
+            const BasePtr newNum(poly::divide(f.num->expand(), gcd).front());
 
             return Fraction{newNum, newDenom};
         }
-- 
2.43.0


From 6914b6d964d62d1a2debb7834fc686b561b5e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:20 +0000
Subject: [PATCH 42/46] fix: evaluate powers with large exponents by doubles
 instead of aborting

---
 src/power.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/power.cpp b/src/power.cpp
index 5480940..8d0d7fc 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -89,10 +89,13 @@ std::optional<tsym::Number> tsym::Power::numericEval() const
     const auto nExp = expRef->numericEval();
     const auto res = baseRef->numericEval();
 
-    if (nExp && res)
-        return res->toThe(*nExp);
+    if (!nExp || !res)
+        return std::nullopt;
+    else if (*res > 0 && std::abs(nExp->toDouble()) > 1.e5)
+        /* An exact result would be out of the range of a double, and possibly too large for the memory. */
+        return Number(std::pow(res->toDouble(), nExp->toDouble()));
 
-    return std::nullopt;
+    return res->toThe(*nExp);
 }
 
 tsym::Fraction tsym::Power::normal(SymbolMap& map) const
-- 
2.43.0


From cc7d44324b01106ede84546eb982ff2ae9807451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:50 +0000
Subject: [PATCH 43/46] fix: keep double prefactors out of the simplification
 of numeric powers

---
 src/numpowersimpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/numpowersimpl.cpp b/src/numpowersimpl.cpp
index a701c18..ddc4ddb 100644
--- a/src/numpowersimpl.cpp
+++ b/src/numpowersimpl.cpp
@@ -63,8 +63,16 @@ void tsym::NumPowerSimpl::computeNonRational()
 
 void tsym::NumPowerSimpl::computeRational()
 {
+    /* The reciprocal of a double could be a rational number that isn't its inverse, so it isn't part of the computations. */
+    const Number doubleFactor = result.preFactor.isDouble() ? result.preFactor : Number(1);
+
+    if (result.preFactor.isDouble())
+        result.preFactor = 1;
+
     computeNegOrPosExp();
     adjustExpSignAndBase();
+
+    result.preFactor *= doubleFactor;
 }
 
 void tsym::NumPowerSimpl::computeNegOrPosExp()
-- 
2.43.0


From fab35969148297c5c6e23bbc5a071ae9b2241c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:04 +0000
Subject: [PATCH 44/46] fix: direction of atan2 where the quotient is a tangent

---
 src/trigonometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 2681b2b..0fc216c 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -374,7 +374,7 @@ tsym::BasePtr tsym::Trigonometric::simplAtan2(const BasePtr& y, const BasePtr& x
     const Trigonometric* trigo(tryCast(atan2Arg));
 
     if (trigo != nullptr && trigo->type == Type::TAN)
-        return trigo->arg1;
+        return shiftAtanResultIntoRange(create(Type::ATAN, atan2Arg), increment);
 
     NumTrigoSimpl numTrigo(atan2ArgEval(y, x), Type::ATAN);
 
-- 
2.43.0


From ddc4ad55a30956ab7d377b3530a89051749a478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:13 +0000
Subject: [PATCH 45/46] fix: products of small double numbers can be zero

---
 src/product.cpp      | 3 +++
 src/productsimpl.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/product.cpp b/src/product.cpp
index 4382581..df4e747 100644
--- a/src/product.cpp
+++ b/src/product.cpp
@@ -37,6 +37,9 @@ tsym::BasePtr tsym::Product::createSimplifiedProduct(const BasePtrList& factors)
 
     if (res.empty())
         return Numeric::one();
+    else if (hasZeroElements(res))
+        /* The product of small double factors can be zero. */
+        return Numeric::zero();
     else if (res.size() == 1)
         return res.front();
     else if (needsExpansion(res))
diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 03ddfd7..b568aae 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -390,6 +390,9 @@ namespace tsym {
 
         BasePtrList simplNumAndNumPow(const Number& preFactor, const Number& base, const Number& exp)
         {
+            if (preFactor == 0)
+                return {Numeric::zero()};
+
             const NumPowerSimpl numericPow({base, exp, preFactor});
 
             const BasePtr newBase = Numeric::create(numericPow.getNewBase());
-- 
2.43.0


From 5a7e8b09dd2470548a66aefa893f6fde3f9df494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:36 +0000
Subject: [PATCH 46/46] fix: arctangents created by atan2 with the sign rules
 of atan

---
 src/trigonometric.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 0fc216c..294289f 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -380,10 +380,8 @@ tsym::BasePtr tsym::Trigonometric::simplAtan2(const BasePtr& y, const BasePtr& x
 
     if (const auto simplified = numTrigo.simplify())
         return shiftAtanResultIntoRange(*simplified, increment);
-    else if (atan2Arg->isNegative())
-        return createBySymmetry(Type::ATAN, atan2Arg);
     else
-        return createInstance(Type::ATAN, {atan2Arg});
+        return create(Type::ATAN, atan2Arg);
 }
 
 tsym::BasePtr tsym::Trigonometric::shiftAtanResultIntoRange(BasePtr result, BasePtr summand)
-- 
2.43.0

