------------------------------- MODULE PolyGF -------------------------------
(***************************************************************************)
(* Univariate polynomials over GF(P), as sequences of coefficients in      *)
(* ascending order without trailing zeros (<<>> is the zero polynomial).   *)
(* Multivariate polynomials are restricted to a line: every symbol becomes *)
(* a linear polynomial in one parameter.  Divisibility over Q implies      *)
(* divisibility on every line; the degree of a gcd on a line is at least   *)
(* the degree of the multivariate gcd, with equality on almost all lines.  *)
(***************************************************************************)
EXTENDS Expr

RECURSIVE PTrim(_)
PTrim(p) == IF p = <<>> \/ p[Len(p)] # 0 THEN p ELSE PTrim(SubSeq(p, 1, Len(p) - 1))

PDeg(p) == Len(p) - 1
PAt(p, i) == IF i >= 1 /\ i <= Len(p) THEN p[i] ELSE 0
PMax(a, b) == IF a > b THEN a ELSE b

PAdd(p, q) == PTrim([i \in 1..PMax(Len(p), Len(q)) |-> (PAt(p, i) + PAt(q, i)) % P])
PScale(p, c) == IF c = 0 THEN <<>> ELSE [i \in 1..Len(p) |-> (p[i] * c) % P]

RECURSIVE PConv(_, _, _, _)
PConv(p, q, k, i) == \* sum of p[j] * q[k - j + 1] for j >= i
    IF i > Len(p) THEN 0 ELSE ((p[i] * PAt(q, k - i + 1)) + PConv(p, q, k, i + 1)) % P
PMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
              ELSE PTrim([k \in 1..(Len(p) + Len(q) - 1) |-> PConv(p, q, k, 1)])

RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN <<1>> ELSE PMul(p, PPow(p, n - 1))

\* remainder of p by q # 0
RECURSIVE PRem(_, _)
PRem(p, q) ==
    IF Len(p) < Len(q) THEN p
    ELSE LET c == GDiv(p[Len(p)], q[Len(q)])
             s == Len(p) - Len(q)
         IN  PRem(PTrim([i \in 1..(Len(p) - 1) |-> (p[i] + P - ((c * PAt(q, i - s)) % P)) % P]), q)

RECURSIVE PGcd(_, _)
PGcd(p, q) == IF q = <<>> THEN p ELSE PGcd(q, PRem(p, q))

Lines == 1..2
LineSym(t, ln) ==
    LET s == Slot(t)
        f == Offset(t)
        g == (f * f) % P
    IN  IF ln = 1 THEN <<(GTable[1][s] + f) % P, (GTable[2][s] + g) % P>> ELSE <<(GTable[2][17 - s] + g) % P, (GTable[1][((s * 5) % 16) + 1] + (3 * f)) % P>>

RECURSIVE OnLine(_, _)
RECURSIVE OnLineSum(_, _, _)
RECURSIVE OnLinePrd(_, _, _)
OnLineSum(o, i, ln) == IF i > Len(o) THEN <<>> ELSE PAdd(OnLine(o[i], ln), OnLineSum(o, i + 1, ln))
OnLinePrd(o, i, ln) == IF i > Len(o) THEN <<1>> ELSE PMul(OnLine(o[i], ln), OnLinePrd(o, i + 1, ln))
OnLine(t, ln) == \* for polynomials
    CASE t.k = "num" -> PTrim(<<GRat(t.g, t.n, t.d)>>)
      [] t.k = "sym" -> LineSym(t, ln)
      [] t.k = "sum" -> OnLineSum(t.o, 1, ln)
      [] t.k = "prd" -> OnLinePrd(t.o, 1, ln)
      [] t.k = "pow" -> PPow(OnLine(t.o[1], ln), IntVal(t.o[2]))

\* Denominators that vanish modulo P spoil the reduction
RECURSIVE Reducible(_)
Reducible(t) == IF t.k = "num" THEN t.g = 0 \/ GNat(t.d) # 0 ELSE \A i \in DOMAIN Ops(t) : Reducible(t.o[i])

DividesOn(d, u, ln) == LET q == OnLine(d, ln) IN IF q = <<>> THEN OnLine(u, ln) = <<>> ELSE PRem(OnLine(u, ln), q) = <<>>
GcdDegOn(u, v, ln) == PDeg(PGcd(OnLine(u, ln), OnLine(v, ln)))
\* gcd of the first n polynomials of a sequence, on a line
RECURSIVE PGcdAll(_, _, _)
PGcdAll(q, n, ln) == IF n = 0 THEN <<>> ELSE PGcd(PGcdAll(q, n - 1, ln), OnLine(q[n], ln))

-----------------------------------------------------------------------------
(* Expanded polynomials, term by term: degrees and coefficients with respect to the symbol x *)

TermsOf(u) == IF u.k = "sum" THEN u.o ELSE <<u>>
FactorExp(f, x) == IF f = x THEN 1 ELSE IF f.k = "pow" /\ f.o[1] = x THEN IntVal(f.o[2]) ELSE 0
RECURSIVE ExpIn(_, _, _)
ExpIn(o, x, i) == IF i > Len(o) THEN 0 ELSE FactorExp(o[i], x) + ExpIn(o, x, i + 1)
TermExp(t, x) == IF t.k = "prd" THEN ExpIn(t.o, x, 1) ELSE FactorExp(t, x)
DegreeIn(u, x) == LET q == {TermExp(TermsOf(u)[i], x) : i \in DOMAIN TermsOf(u)} IN CHOOSE m \in q : \A n \in q : n <= m
MinDegreeIn(u, x) == LET q == {TermExp(TermsOf(u)[i], x) : i \in DOMAIN TermsOf(u)} IN CHOOSE m \in q : \A n \in q : n >= m
\* value of the coefficient of x^n: all terms of that degree with x = 1
RECURSIVE CoeffSum(_, _, _, _, _)
CoeffSum(q, x, n, env, i) ==
    IF i > Len(q) THEN 0
    ELSE GAdd(IF TermExp(q[i], x) = n THEN GDiv(G(q[i], env), GPow(G(x, env), n)) ELSE 0, CoeffSum(q, x, n, env, i + 1))
CoeffG(u, x, n, env) == CoeffSum(TermsOf(u), x, n, env, 1)

\* Coefficients that are integers: their greatest common divisor
NumberOf(t) == IF t.k = "num" THEN t ELSE IF t.k = "prd" /\ t.o[1].k = "num" THEN t.o[1] ELSE One
SmallCoeffs(u) == \A i \in DOMAIN TermsOf(u) : SmallInt(NumberOf(TermsOf(u)[i]))
RECURSIVE IntGcd(_, _)
IntGcd(m, n) == IF n = 0 THEN m ELSE IntGcd(n, m % n)
RECURSIVE IntContentTo(_, _)
IntContentTo(q, n) == IF n = 0 THEN 0 ELSE LET c == IntVal(NumberOf(q[n])) IN IntGcd(IF c < 0 THEN -c ELSE c, IntContentTo(q, n - 1))
IntContent(u) == IntContentTo(TermsOf(u), Len(TermsOf(u)))
=============================================================================
