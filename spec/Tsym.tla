-------------------------------- MODULE Tsym --------------------------------
(***************************************************************************)
(* The library as a state machine.  The state is                           *)
(*   regs   the expressions a client holds,                                *)
(*   made   how each of them was made (name of the operation),             *)
(*   opt    the option that influences results (prime factor bound).       *)
(* Every call of the API is one transition.  It adds at most one expres-   *)
(* sion and changes none of the others.  What a call may return is given   *)
(* by its contract: the set of clauses broken by operands and result has   *)
(* to be empty.  The contracts say nothing about how a result is computed  *)
(* or which of several equivalent expressions is returned, except for the  *)
(* canonical shape that is part of the API.                                *)
(*                                                                         *)
(* A call is a record: op, a (positions of the operands in regs), x (inte- *)
(* gers), and what came back: r (an expression), exc, fail, v, ...         *)
(***************************************************************************)
EXTENDS PolyGF, Stream, BigNat

Arith == {"add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "neg", "pos"}
Powers == {"pow", "sqrt"}
Functions == {"log", "sin", "cos", "tan", "asin", "acos", "atan"}
Rewrites == {"expand", "simplify", "normal"}
Leaves == {"int", "rat", "dbl", "zero", "pi", "euler", "str", "sym", "psym", "big"}

\* Operations whose value is determined by the values of the operands
ValueOps == Arith \union Powers \union Functions \union Rewrites \union {"subst", "diff", "atan2", "rebuild", "roundtrip"}

Field(e, f) == f \in DOMAIN e
If(c, name) == IF c THEN {name} ELSE {}

-----------------------------------------------------------------------------
(* What the result of op, applied to the expressions xs, evaluates to *)

SpecG(op, xs, pt) ==
    LET env == Env(pt)
        x == G(xs[1], env)
    IN  CASE op \in {"add", "iadd"} -> GAdd(x, G(xs[2], env))
          [] op \in {"sub", "isub"} -> GSub(x, G(xs[2], env))
          [] op \in {"mul", "imul"} -> GMul(x, G(xs[2], env))
          [] op \in {"div", "idiv"} -> GDiv(x, G(xs[2], env))
          [] op = "neg" -> GNeg(x)
          [] op = "pow" -> IF SmallInt(xs[2]) THEN GPow(x, IntVal(xs[2])) ELSE GAlien
          [] op = "subst" -> IF Occurs(xs[2], xs[1]) THEN G(xs[1], Bind(pt, xs[2], G(xs[3], env))) ELSE x
          [] op = "diff" -> IF xs[2].k = "sym" THEN (IF GBad(x) THEN x ELSE DG(xs[1], xs[2], env)[2]) ELSE GAlien
          [] op \in Rewrites \union {"pos", "rebuild", "roundtrip"} -> x
          [] OTHER -> GAlien

\* x, give or take 10^-12
Near(x) == IvAdd(x, IvDouble(<<0, 0, 0, 0>>))

SpecR(op, xs, pt) ==
    LET env == Env(pt)
        x == R(xs[1], env)
    IN  CASE op \in {"add", "iadd"} -> IvAdd(x, R(xs[2], env))
          [] op \in {"sub", "isub"} -> IvSub(x, R(xs[2], env))
          [] op \in {"mul", "imul"} -> IvMul(x, R(xs[2], env))
          [] op \in {"div", "idiv"} -> IvDiv(x, R(xs[2], env))
          [] op = "neg" -> IvNeg(x)
          [] op = "pow" -> RPow(x, R(xs[2], env), xs[2])
          [] op = "sqrt" -> IvPow(x, IvRat(1, <<1>>, <<2>>), TRUE)
          \* special values are recognised to the accuracy of a double
          [] op \in Functions -> RFct(op, IF SymbolsOf(xs[1]) = {} /\ ~IsNum(xs[1]) THEN Near(x) ELSE x)
          [] op = "atan2" -> IvAtan2(x, R(xs[2], env))
          [] op = "subst" -> IF Occurs(xs[2], xs[1]) THEN R(xs[1], Bind(pt, xs[2], R(xs[3], env))) ELSE x
          [] op = "diff" -> IF xs[2].k = "sym" /\ ~IvNone(x) THEN D(xs[1], xs[2], env)[2] ELSE None
          [] op \in Rewrites \union {"pos", "rebuild", "roundtrip"} -> x
          [] OTHER -> Unknown

\* Numbers only
Numeric(xs) == \A i \in DOMAIN xs : SymbolsOf(xs[i]) = {}

NumR(i) == IvRat(IF i < 0 THEN -1 ELSE IF i = 0 THEN 0 ELSE 1, <<IF i < 0 THEN -i ELSE i>>, <<1>>)
FullTurn == IvMul(IvPi, RTwo)
HalfTurn == IvPi

\* Different polar angles stand for the same direction: values with atan2 are compared by the rule for atan2, and where
\* all of the directions are in the first quadrant, in which all conventions for the angle agree
Turning(xs, r) == HasFct(r, {"atan2"}) \/ \E i \in DOMAIN xs : HasFct(xs[i], {"atan2"})

RECURSIVE FirstQuadrant(_, _)
FirstQuadrant(t, env) == \/ Bound(t, env)
                     \/ /\ (t.k = "fct" /\ t.s = "atan2") => IvPositive(R(t.o[1], env)) /\ IvPositive(R(t.o[2], env))
                        /\ \A i \in DOMAIN Ops(t) : FirstQuadrant(t.o[i], env)
AllFirst(op, xs, r, pt) ==
    /\ FirstQuadrant(r, Env(pt))
    /\ IF op = "subst" THEN FirstQuadrant(xs[1], IF Occurs(xs[2], xs[1]) THEN Bind(pt, xs[2], R(xs[3], Env(pt))) ELSE Env(pt)) /\ FirstQuadrant(xs[3], Env(pt))
       ELSE \A i \in DOMAIN xs : FirstQuadrant(xs[i], Env(pt))

AngleWrong(xs, r, turn) ==
    \E pt \in RPoints :
       LET e == Near(SpecR("atan2", xs, pt))
           v == R(r, Env(pt))
       IN  /\ IvKnown(e) /\ IvKnown(v)
           /\ \A k \in -4..4 : IvApart(IvAdd(e, IvMul(turn, NumR(k))), v)

(* Deviation of the implementation that its unit tests demand: for x < 0 and a quotient y/x that is not in the table
   of special angles, atan2(y, x) is atan(y/x), half a turn off. *)
Atan2Deviation(xs, r) ==
    /\ \E pt \in RPoints : IvNegative(R(xs[2], Env(pt)))
    /\ HasFct(r, {"atan"}) \/ HasFct(xs[1], {"sin", "cos", "tan"})
    /\ ~AngleWrong(xs, r, HalfTurn)

(* Order of construction matters where contraction rules exclude each other:
   - numbers are distributed over sums in products of two factors only,
   - roots and symbolic powers of bases of unknown sign, numbers with powers of numbers,
   - sin(x)^2 + cos(x)^2 = 1, if there is more than one of either. *)
SumFactor(t) == \/ t.k = "sum"
                \/ t.k = "pow" /\ t.o[1].k \in {"sum", "prd", "pow"}
                \/ t.k = "prd" /\ \E i \in DOMAIN t.o : \/ t.o[i].k = "sum"
                                                        \/ t.o[i].k = "pow" /\ t.o[i].o[1].k \in {"sum", "prd", "pow"}
Factors(t) == IF t.k = "prd" THEN Range(t.o) ELSE {t}
Loose(t) == {f \in Factors(t) : f.k = "pow" /\ ~IsInt(f.o[2]) /\ ~(f.o[1].k = "sym" /\ f.o[1].p = 1)}
NumberPower(t) == \E f \in Factors(t) : f.k = "pow" /\ IsNum(f.o[1]) /\ ~IsNum(f.o[2])
\* roots of numbers are brought into canonical form together with factors up to the prime bound only
NumberRoot(t) == \E f \in Factors(t) : f.k = "pow" /\ IsNum(f.o[1]) /\ IsNum(f.o[2])
Above(l) == Len(l) > 1 \/ l[1] > 1000
RECURSIVE LargeNumber(_)
LargeNumber(t) == (IsNum(t) /\ (Above(t.n) \/ Above(t.d))) \/ \E i \in DOMAIN Ops(t) : LargeNumber(t.o[i])
LooseProduct(t) == t.k = "prd" /\ (Cardinality(Loose(t)) >= 2 \/ NumberPower(t) \/ SumFactor(t) \/ (NumberRoot(t) /\ LargeNumber(t)))
LooseSum(t) == t.k = "sum" /\ HasFct(t, {"sin"}) /\ HasFct(t, {"cos"})

RECURSIVE LooseWithin(_)
LooseWithin(t) == LooseProduct(t) \/ LooseSum(t) \/ \E i \in DOMAIN Ops(t) : LooseWithin(t.o[i])

\* Arctangents of constants: atan2 and atan draw a negative sign out of different arguments
RECURSIVE PolarAtan(_)
PolarAtan(t) == \/ HasFct(t, {"atan"}) /\ t.k = "fct" /\ t.s = "atan" /\ ~IsNum(t.o[1]) /\ SymbolsOf(t) = {}
                \/ \E i \in DOMAIN Ops(t) : PolarAtan(t.o[i])

\* Identically zero, beyond reasonable doubt: zero at both points modulo P, and not provably nonzero anywhere
LooksZero(t) == /\ \A pt \in GPoints : G(t, Env(pt)) = 0
                /\ \A pt \in RPoints : ~IvApart(R(t, Env(pt)), RZero)

-----------------------------------------------------------------------------
(* Clauses of all operations with a value *)

\* bad: the clauses that are broken; how: what the verdict on the value rests on
ValueJudge(op, xs, r) ==
    LET eg == <<SpecG(op, xs, 1), SpecG(op, xs, 2)>>
        rg == <<G(r, Env(1)), G(r, Env(2))>>
        \* doubles below 10^-16 are zero
        dbl == \E i \in DOMAIN xs : HasKind(xs[i], {"dbl"})
        real(pt) == IF dbl THEN Near(SpecR(op, xs, pt)) ELSE SpecR(op, xs, pt)
        er == <<real(1), real(2), real(3), real(4)>>
        rr == <<R(r, Env(1)), R(r, Env(2)), R(r, Env(3)), R(r, Env(4))>>
        exact == \A pt \in GPoints : eg[pt] >= 0 /\ rg[pt] = eg[pt]
        wrong == IF op = "atan2" THEN AngleWrong(xs, r, FullTurn)
                 ELSE IF Turning(xs, r) THEN \E pt \in RPoints : IvApart(er[pt], rr[pt]) /\ AllFirst(op, xs, r, pt)
                 ELSE IF exact THEN FALSE
                 ELSE \/ \E pt \in GPoints : eg[pt] >= 0 /\ rg[pt] >= 0 /\ eg[pt] # rg[pt]
                      \/ \E pt \in RPoints : IvApart(er[pt], rr[pt])
        operandUnd == \/ IsUnd(xs[1]) /\ ~(op = "subst" /\ IsUnd(xs[2]))   \* Undefined itself may be substituted
                      \/ Len(xs) = 2 /\ IsUnd(xs[2])
                      \/ op = "subst" /\ IsUnd(xs[3]) /\ Occurs(xs[2], xs[1])
        bad ==
        IF IsUnd(r)
        THEN \* Undefined although the operation has a value
             If(/\ \A i \in DOMAIN xs : ~IsUnd(xs[i])
                /\ ~(op = "diff" /\ xs[2].k # "sym")
                /\ LET turning == op # "atan2" /\ Turning(xs, r)
                   IN  \E pt \in RPoints : IvKnown(er[pt]) /\ (turning => AllFirst(op, xs, r, pt)), "undefined")
        ELSE IF operandUnd THEN {"absorb"}
        ELSE   (IF ~wrong THEN {} ELSE IF op = "atan2" /\ Atan2Deviation(xs, r) THEN {"halfturn"} ELSE {"value"})
            \* numeric operation without real value that is not recognised
             \union If(/\ op \in Arith \union Powers \union Functions
                       /\ Numeric(xs)
                       /\ ~(op = "pow" /\ xs[2] = Zero)
                       /\ \A i \in DOMAIN xs : IvKnown(R(xs[i], Env(1)))
                       /\ IvNone(er[1]), "domain")
            \* symbols that came from nowhere
             \union If(op # "roundtrip" /\ ~(SymbolsOf(r) \subseteq UNION {SymbolsOf(xs[i]) : i \in DOMAIN xs}), "leak")
             \union If(~WellFormed(r), "shape")
    IN  [bad |-> bad,
         how |-> IF IsUnd(r) THEN "none"
                 ELSE IF exact THEN "exact"
                 ELSE IF \E pt \in RPoints : IvSharp(er[pt], rr[pt]) THEN "real" ELSE "open"]

-----------------------------------------------------------------------------
(* Leaves *)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(i) == IF i < 0 THEN -i ELSE i
SgnI(i) == IF i < 0 THEN -1 ELSE IF i = 0 THEN 0 ELSE 1
Limbs(i) == IF i < 10000 THEN <<i>>
            ELSE IF i < 100000000 THEN <<i \div 10000, i % 10000>>
            ELSE <<i \div 100000000, (i \div 10000) % 10000, i % 10000>>
IntTree(i) == [k |-> "num", g |-> SgnI(i), n |-> Limbs(AbsI(i)), d |-> <<1>>]
RatTree(n, d) == LET c == Gcd(AbsI(n), AbsI(d))
                 IN  [k |-> "num", g |-> SgnI(n) * SgnI(d), n |-> Limbs(AbsI(n) \div c), d |-> Limbs(AbsI(d) \div c)]

RECURSIVE StripLimbs(_)
StripLimbs(l) == IF Len(l) > 1 /\ l[1] = 0 THEN StripLimbs(Tail(l)) ELSE l

LeafClauses(e) ==
    LET r == e.r
    IN  CASE e.op = "int" -> If(r # IntTree(e.x[1]), "leaf")
          [] e.op = "rat" -> If(r # RatTree(e.x[1], e.x[2]), "leaf")
          [] e.op = "zero" -> If(r # Zero, "leaf")
          [] e.op = "pi" -> If(r # [k |-> "cst", s |-> "pi"], "leaf")
          [] e.op = "euler" -> If(r # [k |-> "cst", s |-> "e"], "leaf")
          [] e.op \in {"sym", "psym"} -> If(~(r.k = "sym" /\ (r.p = 1) = (e.op = "psym")), "leaf")
          [] e.op = "big" -> LET l == StripLimbs(e.l)
                             IN If(~(r.k = "num" /\ r.n = l /\ r.d = <<1>> /\ r.g = (IF l = <<0>> THEN 0 ELSE 1)), "leaf")
          [] e.op = "dbl" -> If(r.k \notin {"dbl", "num"} \/ (IF r.k = "num" THEN ~RatNear(e.b, r.g, r.n, r.d, 0) ELSE r.b # e.b), "leaf")
          [] OTHER -> {}

-----------------------------------------------------------------------------
(* Operations with more to say *)

\* numerator n and denominator d of x
FractionClauses(x, n, d) ==
    LET exact(pt) == LET l == GMul(G(x, Env(pt)), G(d, Env(pt)))
                         r == G(n, Env(pt))
                     IN  l >= 0 /\ r >= 0 /\ l # r
        real(pt) == IvApart(IvMul(R(x, Env(pt)), R(d, Env(pt))), R(n, Env(pt)))
        rational == IsRational(x)
        poly == IsPoly(n) /\ IsPoly(d)
    IN  IF IsUnd(x) THEN {}
        ELSE IF IsUnd(n) \/ IsUnd(d) THEN If(\E pt \in RPoints : IvKnown(R(x, Env(pt))), "undefined")
        ELSE   If(~Turning(<<x, n>>, d) /\ ((\E pt \in GPoints : exact(pt)) \/ (\E pt \in RPoints : real(pt))), "value")
            \union If(~(SymbolsOf(n) \union SymbolsOf(d) \subseteq SymbolsOf(x)), "leak")
            \union If(rational /\ ~poly, "fraction")
            \union If(rational /\ poly /\ Reducible(n) /\ Reducible(d)
                      /\ \A ln \in Lines : GcdDegOn(n, d, ln) > 0, "coprime")

\* greatest common divisor r of the polynomials u and v
GcdClauses(u, v, r) ==
    IF ~IsPolyIn(r) THEN {"poly"}
    ELSE IF ~(Reducible(u) /\ Reducible(v) /\ Reducible(r)) THEN {}
    ELSE If(\E ln \in Lines : ~DividesOn(r, u, ln) \/ ~DividesOn(r, v, ln), "divides")
         \union If(\A ln \in Lines : PDeg(OnLine(r, ln)) # GcdDegOn(u, v, ln), "greatest")
         \union If(/\ \A t \in {u, v, r} : Expanded(t) /\ SmallCoeffs(t)
                   /\ IntContent(r) # IntGcd(IntContent(u), IntContent(v)), "numbers")

\* u = q*v + r
DivisionClauses(u, v, q, r) ==
    LET bad(pt) == LET l == G(u, Env(pt))
                       m == GAdd(GMul(G(q, Env(pt)), G(v, Env(pt))), G(r, Env(pt)))
                   IN  l >= 0 /\ m >= 0 /\ l # m
    IN  If(\E pt \in GPoints : bad(pt), "value")
        \union If(/\ IsPolyIn(u) /\ IsPolyIn(v) /\ Reducible(u) /\ Reducible(v)
                  /\ \A ln \in Lines : OnLine(v, ln) # <<>> /\ DividesOn(v, u, ln)
                  /\ Expanded(u) /\ Expanded(v)
                  /\ r # Zero, "exactdiv")

\* Pseudo-division in the symbol x: c^n u = q*v + r, where c is the leading coefficient of v, n = deg(u) - deg(v) + 1 (at
\* least 0); the degree of r is below the one of v.  e.same: the remainder alone is the same one.
PseudoClauses(e, u, v, x, q, r) ==
    LET fit == /\ IsPolyIn(u) /\ IsPolyIn(v) /\ Expanded(u) /\ Expanded(v)
        du == DegreeIn(u, x)
        dv == DegreeIn(v, x)
        n == IF du < dv THEN 0 ELSE du - dv + 1
        bad(pt) == LET c == CoeffG(v, x, dv, Env(pt))
                       l == GMul(GPow(c, n), G(u, Env(pt)))
                       m == GAdd(GMul(G(q, Env(pt)), G(v, Env(pt))), G(r, Env(pt)))
                   IN  c > 0 /\ l >= 0 /\ m >= 0 /\ l # m
    IN  IF ~fit \/ u = Zero THEN {}
        ELSE IF ~(IsPolyIn(q) /\ IsPolyIn(r)) THEN {"poly"}
        ELSE If(\E pt \in GPoints : bad(pt), "value")
             \union If(r # Zero /\ dv > 0 /\ DegreeIn(r, x) >= dv, "degree")
             \union If(e.same # 1, "remainder")

\* u as a polynomial in x: u is the sum of cs[i + 1]*x^i, with coefficients free of x; the content is their greatest divisor
PolyClauses(e, u, x) ==
    LET d == DegreeIn(u, x)
        m == MinDegreeIn(u, x)
        cs == e.cs
        N == Len(cs)
        whole(c) == \A i \in DOMAIN c : IsPolyIn(c[i]) /\ Reducible(c[i])
        contentBad(t) == \/ ~IsPolyIn(t)
                         \/ Occurs(x, t)
                         \/ /\ Reducible(u) /\ Reducible(t) /\ whole(cs)
                            /\ \/ \E ln \in Lines : \E i \in DOMAIN cs : ~DividesOn(t, cs[i], ln)
                               \/ \A ln \in Lines : PDeg(OnLine(t, ln)) # PDeg(PGcdAll(cs, N, ln))
    IN  IF ~(IsPolyIn(u) /\ Expanded(u) /\ u # Zero) THEN {}
        ELSE IF e.deg # d \/ e.min # m THEN {"degree"}
        ELSE IF N # d + 1 THEN {}
        ELSE If(\/ \E i \in DOMAIN cs : ~IsPolyIn(cs[i]) \/ Occurs(x, cs[i])
                \/ \E pt \in GPoints : \E i \in DOMAIN cs : LET g == G(cs[i], Env(pt))
                                                                   h == CoeffG(u, x, i - 1, Env(pt))
                                                               IN  g >= 0 /\ h >= 0 /\ g # h
                \/ e.lc # cs[N] \/ e.above # Zero, "coefficient")
             \union If(contentBad(e.ct) \/ contentBad(e.pct), "content")
             \union If(e.unit \notin {-1, 1} \/ (IsNum(cs[N]) /\ e.unit # cs[N].g), "unit")

(* Numbers, exactly: results of arithmetic, in lowest terms, and comparison *)
Manageable(t, limit) == IsNum(t) /\ Len(t.n) <= limit /\ Len(t.d) <= limit
ExactClauses(op, xs, r) ==
    IF ~(Manageable(r, 40) /\ xs # <<>> /\ \A i \in DOMAIN xs : Manageable(xs[i], 20)) THEN {}
    ELSE LET p == xs[1]
             q == xs[Len(xs)]
             right == CASE op \in {"add", "iadd"} -> IsRatSum(r, p, q)
                        [] op \in {"sub", "isub"} -> IsRatDifference(r, p, q)
                        [] op \in {"mul", "imul"} -> IsRatProduct(r, p, q)
                        [] op \in {"div", "idiv"} -> q.g # 0 /\ IsRatQuotient(r, p, q)
                        [] op = "neg" -> r = [p EXCEPT !.g = -p.g]
                        [] op = "pos" -> r = p
                        [] op = "pow" -> ~SmallInt(q) \/ (AbsI(IntVal(q)) * (Len(p.n) + Len(p.d)) > 120) \/ (p.g = 0 /\ IntVal(q) <= 0)
                                         \/ (LET w == RatPow(p, IntVal(q)) IN r.g = w.g /\ r.n = w.n /\ r.d = w.d)
                        [] op = "sqrt" -> r.g >= 0 /\ IsRatProduct(p, r, r)
                        [] OTHER -> TRUE
         IN  If(~right, "exact") \union If(Manageable(r, 7) /\ ~InLowestTerms(r), "lowest")

CompareClauses(e, x, y) ==
    LET o == RatOrder(x, y)
        says(flag, fact) == (flag = 1) = fact
    IN    If(~(/\ says(e.lt, o < 0) /\ says(e.le, o <= 0) /\ says(e.gt, o > 0) /\ says(e.ge, o >= 0)), "less")
        \union If(~(says(e.eq, o = 0) /\ says(e.ne, o # 0)), "equal")
        \union If(o = 0 /\ e.hash # 1, "hash")
        \union If(~(/\ says(e.isint, IsInt(x)) /\ says(e.isfrac, ~IsInt(x)) /\ says(e.odd, IsInt(x) /\ NatOdd(x.n)) /\ says(e.even, IsInt(x) /\ ~NatOdd(x.n))
                    /\ e.sg = x.g), "kind")
        \union If(e.abs # [x EXCEPT !.g = IF x.g = 0 THEN 0 ELSE 1], "abs")

\* Exact value of a rational number: sign of n/d - m/e etc. is not needed, the representation is unique
EqClauses(e, x, y) ==
    LET plain == ~HasKind(x, {"und", "dbl", "bad"}) /\ ~HasKind(y, {"und", "dbl", "bad"})
    IN    If(e.eq # e.qe, "symmetric") \union If(e.ne = e.eq, "negation")
        \union If(plain /\ ((e.eq = 1) # (x = y)), "structure")
        \union If((IsUnd(x) \/ IsUnd(y)) /\ e.eq = 1, "undefined")
        \union If(plain /\ e.eq = 1 /\ e.hash # 1, "hash")
        \union If(plain /\ e.eq = 1 /\ \E pt \in RPoints : IvApart(R(x, Env(pt)), R(y, Env(pt))), "value")

SignClauses(e, x) ==
    LET v == [pt \in SignPoints |-> R(x, Env(pt))]
        notPos(pt) == IvKnown(v[pt]) /\ IvNegative(v[pt])
        notNeg(pt) == IvKnown(v[pt]) /\ IvPositive(v[pt])
    IN    If(e.pos = 1 /\ e.neg = 1, "both")
        \union If(IsNum(x) /\ ~((e.pos = 1) = (x.g = 1) /\ (e.neg = 1) = (x.g = -1)), "number")
        \union If(~IsNum(x) /\ ~Turning(<<x>>, x) /\ e.pos = 1 /\ \E pt \in SignPoints : notPos(pt), "positive")
        \union If(~IsNum(x) /\ ~Turning(<<x>>, x) /\ e.neg = 1 /\ \E pt \in SignPoints : notNeg(pt), "negative")
        \union If(IsUnd(x) /\ (e.pos = 1 \/ e.neg = 1), "undefined")
        \union If(x.k = "sym" /\ (e.pos # x.p \/ e.neg # 0), "symbol")

DoubleClauses(e, x) ==
    IF Field(e, "exc") THEN If(SymbolsOf(x) = {} /\ ~IsUnd(x) /\ IvKnown(R(x, Env(1))), "refused")
                            \union If(e.exc # "domain_error", "exception")
    ELSE If(SymbolsOf(x) # {} \/ IsUnd(x), "accepted")
         \union If(SymbolsOf(x) = {} /\ ~Turning(<<x>>, x) /\ IvApart(IvDouble(e.b), R(x, Env(1))), "value")
         \union If((IsNum(x) /\ ~RatNear(e.b, x.g, x.n, x.d, 1)) \/ (x.k = "dbl" /\ e.b # x.b), "exact")

\* 2^31 - 1 and 2^31 as limbs
LimbsLE(l, m) == Len(l) < Len(m) \/ (Len(l) = Len(m) /\ \A i \in 1..Len(l) : l[i] > m[i] => \E j \in 1..(i - 1) : l[j] < m[j])
FitsInt(t) == IsInt(t) /\ IF t.g < 0 THEN LimbsLE(t.n, <<21, 4748, 3648>>) ELSE LimbsLE(t.n, <<21, 4748, 3647>>)
IntClauses(e, x) ==
    IF Field(e, "exc") THEN If(FitsInt(x), "refused") \union If(e.exc \notin {"domain_error", "overflow_error"}, "exception")
    ELSE If(\/ IsNum(x) /\ ~FitsInt(x)
            \/ SymbolsOf(x) # {} \/ IsUnd(x)
            \* anything else is an integer if it evaluates to one, to the accuracy of a double
            \/ ~IsNum(x) /\ IvApart(Near(R(x, Env(1))), IvRat(e.g, e.n, <<1>>)), "accepted")
         \union If(FitsInt(x) /\ ~(e.g = x.g /\ e.n = x.n), "value")

TypeName(t) ==
    CASE t.k = "num" -> IF t.d = <<1>> THEN "Integer" ELSE "Fraction"
      [] t.k = "dbl" -> "Double" [] t.k = "sym" -> "Symbol" [] t.k = "cst" -> "Constant" [] t.k = "und" -> "Undefined"
      [] t.k = "fct" -> "Function" [] t.k = "sum" -> "Sum" [] t.k = "prd" -> "Product" [] t.k = "pow" -> "Power"

QueryClauses(e, x) ==
      If(~(Cardinality(Range(e.syms)) = Len(e.syms) /\ Range(e.syms) = SymbolsOf(x)), "symbols")
    \union If(e.type # TypeName(x), "type")
    \union If(e.nops # Len(Ops(x)), "operands")
    \union If(e.name # (IF x.k \in {"sym", "fct", "cst"} THEN x.s ELSE ""), "name")

ParseClauses(e) ==
    LET p == Parse(e.w)
    IN  IF p = <<>> THEN If(~Field(e, "fail"), "accepted")
        ELSE IF Field(e, "fail") THEN {"rejected"}
        ELSE LET t == p[1]
                 r == e.r
                 v == <<R(t, Env(1)), R(t, Env(2)), R(t, Env(3)), R(t, Env(4))>>
                 g(pt) == LET m == G(t, Env(pt))
                              n == G(r, Env(pt))
                          IN  m >= 0 /\ n >= 0 /\ m # n
             IN  IF IsUnd(r) THEN If(\E pt \in RPoints : IvKnown(v[pt]) /\ (Turning(<<t>>, t) => FirstQuadrant(t, Env(pt))), "undefined")
                 ELSE If((\E pt \in GPoints : g(pt)) \/ (\E pt \in RPoints : IvApart(v[pt], R(r, Env(pt))) /\ (Turning(<<t>>, r) => FirstQuadrant(t, Env(pt)) /\ FirstQuadrant(r, Env(pt)))), "value")
                      \union If(~(SymbolsOf(r) \subseteq SymbolsOf(t)), "leak")

ConstantsOf(t) == {u.s : u \in {v \in Subterms(t) : v.k = "cst"}}
StreamClauses(e, x) ==
    LET m == Read(e.k, ConstantsOf(x))
        t == m[1]
        g(pt) == LET l == G(t, Env(pt))
                     r == G(x, Env(pt))
                 IN  l >= 0 /\ r >= 0 /\ l # r
        written == \A i \in DOMAIN e.k : e.k[i].t \notin {"dbl", "bad"}
    IN  (IF m = <<>> THEN {"stream"}
         ELSE IF IsUnd(x) \/ IsUnd(t) THEN If(x # t, "stream")
         ELSE If((\E pt \in GPoints : g(pt)) \/ (\E pt \in RPoints : IvApart(R(t, Env(pt)), R(x, Env(pt)))), "value")
              \union If(~(\E s1 \in SymbolsOf(x) : s1.s \in ConstantsOf(x)) /\ SymbolsOf(t) # SymbolsOf(x), "symbols"))
        \union If(written /\ e.s # Text(e.k, FALSE), "text")
        \union If(written /\ e.u # Text(e.k, TRUE), "unicode")

\* A variable from the text e.s, positive iff e.x[1] = 1
NameClauses(e) ==
    LET s == e.s
        n == Split(s)
        r == e.r
        unsigned == IF s # "" /\ CharAt(s, 1) \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s
        k == e.k[1]
        full == FullName(n[1], n[2], "")
    IN  IF n # <<>>
        THEN If(r # [k |-> "sym", s |-> full, p |-> e.x[1]] \/ e.name # full, "symbol")
             \union If(k # [t |-> "sym", n |-> n[1], b |-> n[2], p |-> "", q |-> e.x[1]], "parts")
             \union If(e.t # full \/ e.u # FullName(Letter(n[1]), n[2], ""), "text")
        ELSE IF IsNumeral(unsigned)
        THEN LET i == IntOf(unsigned) IN If(r # IF CharAt(s, 1) = "-" THEN Negated(i) ELSE i, "integer")
             \union If(e.name # "", "name")
        ELSE IF ~Only(s, Language) \/ Blank(s) THEN If(~IsUnd(r), "accepted")
        ELSE If(~(IsUnd(r) \/ IsInt(r) \/ r.k = "sym"), "accepted")

-----------------------------------------------------------------------------
(* Linear algebra.  Matrices are given row by row; rows and columns in the
   skip mask do not take part. *)

RECURSIVE Bit(_, _)
Bit(m, i) == IF i = 0 THEN m % 2 = 1 ELSE Bit(m \div 2, i - 1)
Active(dim, mask) == {i \in 1..dim : mask < 0 \/ ~Bit(mask, i - 1)}
SeqOf(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE i \in T : \A j \in T : i <= j IN <<m>> \o F(T \ {m})
            IN  F(S)
Del(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

\* Laplace expansion along the first row, for M[i][j] and sequences of rows and columns
RECURSIVE DetG(_, _, _)
RECURSIVE DetGCols(_, _, _, _)
DetG(M, rows, cols) == IF rows = <<>> THEN 1 ELSE DetGCols(M, rows, cols, 1)
DetGCols(M, rows, cols, k) ==
    IF k > Len(cols) THEN 0
    ELSE LET a == M[rows[1]][cols[k]]
             t == IF a = 0 THEN 0 ELSE GMul(a, DetG(M, Tail(rows), Del(cols, k)))
         IN  GAdd(IF k % 2 = 1 THEN t ELSE GNeg(t), DetGCols(M, rows, cols, k + 1))
RECURSIVE DetR(_, _, _)
RECURSIVE DetRCols(_, _, _, _)
DetR(M, rows, cols) == IF rows = <<>> THEN ROne ELSE DetRCols(M, rows, cols, 1)
DetRCols(M, rows, cols, k) ==
    IF k > Len(cols) THEN RZero
    ELSE LET t == IvMul(M[rows[1]][cols[k]], DetR(M, Tail(rows), Del(cols, k)))
         IN  IvAdd(IF k % 2 = 1 THEN t ELSE IvNeg(t), DetRCols(M, rows, cols, k + 1))

MatG(xs, dim, pt) == [i \in 1..dim |-> [j \in 1..dim |-> G(xs[(i - 1) * dim + j], Env(pt))]]
MatR(xs, dim, pt) == [i \in 1..dim |-> [j \in 1..dim |-> R(xs[(i - 1) * dim + j], Env(pt))]]

RECURSIVE DotG(_, _, _, _)
DotG(f(_), g(_), idx, k) == IF k > Len(idx) THEN 0 ELSE GAdd(GMul(f(idx[k]), g(idx[k])), DotG(f, g, idx, k + 1))
RECURSIVE DotR(_, _, _, _)
DotR(f(_), g(_), idx, k) == IF k > Len(idx) THEN RZero ELSE IvAdd(IvMul(f(idx[k]), g(idx[k])), DotR(f, g, idx, k + 1))

Marker == [k |-> "sym", s |-> "untouched", p |-> 0]

\* Singular beyond reasonable doubt / regular for certain
SingularMat(xs, dim, idx) ==
    /\ \A pt \in GPoints : DetG(MatG(xs, dim, pt), idx, idx) = 0
    /\ \A pt \in RPoints : ~IvApart(DetR(MatR(xs, dim, pt), idx, idx), RZero)
RegularMat(xs, dim, idx) ==
    \/ \E pt \in GPoints : DetG(MatG(xs, dim, pt), idx, idx) > 0
    \/ \E pt \in RPoints : IvApart(DetR(MatR(xs, dim, pt), idx, idx), RZero)

LinearClauses(e, xs) ==
    LET dim == e.x[1]
        act == Active(dim, e.x[4])
        idx == SeqOf(act)
        A == SubSeq(xs, 1, dim * dim)
        anyUnd == \E i \in DOMAIN xs : IsUnd(xs[i])
        rs == e.rs
        gdiff(l, r) == l >= 0 /\ r >= 0 /\ l # r
        undRes == \E i \in DOMAIN rs : IsUnd(rs[i])
        solveBad ==
           \/ \E pt \in GPoints : LET M == MatG(A, dim, pt) IN
                 \E i \in act : gdiff(DotG(LAMBDA j : M[i][j], LAMBDA j : G(rs[j], Env(pt)), idx, 1), G(xs[dim * dim + i], Env(pt)))
           \/ \E pt \in RPoints : LET M == MatR(A, dim, pt) IN
                 \E i \in act : IvApart(DotR(LAMBDA j : M[i][j], LAMBDA j : R(rs[j], Env(pt)), idx, 1), R(xs[dim * dim + i], Env(pt)))
        invBad ==
           \/ \E pt \in GPoints :
                 LET M == MatG(A, dim, pt)
                     N == MatG(rs, dim, pt)
                 IN  \E i, k \in act : gdiff(DotG(LAMBDA j : M[i][j], LAMBDA j : N[j][k], idx, 1), IF i = k THEN 1 ELSE 0)
           \/ \E pt \in RPoints :
                 LET M == MatR(A, dim, pt)
                     N == MatR(rs, dim, pt)
                 IN  \E i, k \in act : IvApart(DotR(LAMBDA j : M[i][j], LAMBDA j : N[j][k], idx, 1), IF i = k THEN ROne ELSE RZero)
        pairs == {<<i, j>> \in (1..dim) \X (1..dim) : i \notin act \/ j \notin act}
    IN  If(e.kept # 1, "input")
        \union
        (IF anyUnd \/ Field(e, "toobig") THEN {}
         ELSE IF Field(e, "exc")
         THEN If(e.exc # "invalid_argument", "exception") \union If(RegularMat(A, dim, idx), "singular")
         ELSE IF e.op = "det"
         THEN IF e.r.k = "big" THEN {} ELSE
              If(IsUnd(e.r) /\ \E pt \in RPoints : IvKnown(DetR(MatR(A, dim, pt), idx, idx)), "undefined")
              \union If(\/ \E pt \in GPoints : gdiff(G(e.r, Env(pt)), DetG(MatG(A, dim, pt), idx, idx))
                        \/ \E pt \in RPoints : IvApart(R(e.r, Env(pt)), DetR(MatR(A, dim, pt), idx, idx)), "value")
              \union If(SingularMat(A, dim, idx) /\ e.r # Zero, "zero")
         ELSE IF e.op = "solve"
         THEN If(undRes, "undefined") \union If(~undRes /\ solveBad, "value")
              \union If(SingularMat(A, dim, idx), "regular")
              \union If(\E i \in (1..dim) \ act : rs[i] # Marker, "skip")
         ELSE If(undRes, "undefined") \union If(~undRes /\ invBad, "value")
              \union If(SingularMat(A, dim, idx), "regular")
              \union If(\E p \in pairs : rs[(p[1] - 1) * dim + p[2]] # A[(p[1] - 1) * dim + p[2]], "skip"))

-----------------------------------------------------------------------------
(* The contract of a call.  xs: operands, made: how they were made *)

\* Texts that do not stand for the expression alone: the constant e is a name like others, and so are a and positive a
Ambiguous(t) == \/ HasKind(t, {"und"})
                \/ HasKind(t, {"cst"}) /\ Occurs([k |-> "cst", s |-> "e"], t)
                \/ \E s1, s2 \in SymbolsOf(t) : s1.s = s2.s /\ s1.p # s2.p

Judged(e, xs) ==
    IF ~(Field(e, "r") /\ e.op \in ValueOps /\ e.r.k # "big") THEN [bad |-> {}, how |-> "none"]
    ELSE IF e.op = "roundtrip" THEN (IF Ambiguous(xs[1]) THEN [bad |-> {}, how |-> "none"] ELSE ValueJudge(e.op, xs, Repos(e.r, SymbolsOf(xs[1]))))
    ELSE ValueJudge(e.op, xs, e.r)

(* Numerical evaluation works with doubles: numbers below about 10^-16 count as zero, and beyond 10^308 there are none.
   Nothing is asked of calls with constant subterms that far out (numbers themselves are exact and not among them). *)
Tiny == IvRat(1, <<1>>, <<10, 0, 0, 0>>)
Huge == IvPowInt(IvRat(1, <<10>>, <<1>>), 290)
FarOut(v) == \/ IvPositive(IvSub(Tiny, v)) /\ IvPositive(IvAdd(Tiny, v))
             \/ IvPositive(IvSub(v, Huge)) \/ IvNegative(IvAdd(v, Huge))
             \/ v = Unknown
RECURSIVE Extreme(_)
Extreme(t) == \/ t.k \in {"pow", "prd", "sum", "fct"} /\ SymbolsOf(t) = {} /\ FarOut(R(t, Env(1)))
              \/ \E i \in DOMAIN Ops(t) : Extreme(t.o[i])
\* ... and of functions of products with a coefficient beyond the resolution of doubles: it is evaluated first
Beyond(t) == IsNum(t) /\ t # Zero /\ (FarOut(R(t, Env(1))) \/ FarOut(IvDiv(ROne, R(t, Env(1)))))
RECURSIVE Scaled(_)
Scaled(t) == \/ t.k = "prd" /\ SymbolsOf(t) = {} /\ \E i \in DOMAIN t.o : Beyond(t.o[i])
             \/ \E i \in DOMAIN Ops(t) : Scaled(t.o[i])
Excusable == {"value", "undefined", "domain", "exception", "refused", "accepted", "positive", "negative", "halfturn"}

Clauses(e, xs, made, base) ==
    LET r == e.r
        src(i) == made[e.a[i]]
    IN  IF e.op = "crash" THEN {"crash"}
        ELSE IF e.op \in {"det", "solve", "inv"} THEN LinearClauses(e, xs)
        ELSE IF Field(e, "r") /\ r.k = "big" THEN {}
        ELSE IF Field(e, "exc") /\ e.op \notin {"todouble", "toint"} THEN {"exception"}
        ELSE CASE e.op \in Leaves -> LeafClauses(e)
               [] e.op = "expand" ->
                    base \union If(~IsUnd(r) /\ ~Expanded(r), "expanded")
                         \union If(src(1) = "expand" /\ r # xs[1] /\ ~IsUnd(r), "idempotent")
                         \union If(IsPolyIn(xs[1]) /\ r # Zero /\ LooksZero(xs[1]), "zero")
               [] e.op = "normal" ->
                    base \union If(IsRational(xs[1]) /\ ~IsPolyIn(r) /\ ~IsUnd(r) /\ LooksZero(xs[1]), "zero")
               [] e.op = "simplify" ->
                    base \union If(IsRational(xs[1]) /\ r # Zero /\ ~IsUnd(r) /\ LooksZero(xs[1]), "zero")
               [] e.op = "diff" ->
                    base \union If(xs[2].k = "sym" /\ ~IsUnd(xs[1]) /\ ~Occurs(xs[2], xs[1]) /\ r # Zero
                                  /\ \E pt \in RPoints : IvKnown(R(xs[1], Env(pt))), "constant")
                         \union If(xs[2].k # "sym" /\ ~IsUnd(r), "notsymbol")
               [] e.op = "subst" ->
                    base \union If(~IsUnd(r) /\ ~Occurs(xs[2], xs[1]) /\ r # xs[1] /\ ~LooseWithin(xs[1]), "absent")
                         \union If(xs[2].k = "sym" /\ ~Occurs(xs[2], xs[3]) /\ Occurs(xs[2], r), "remains")
                         \* a replacement that simplifies back leaves equal numbers: only the value is fixed then
               [] e.op = "rebuild" -> base \union If(~LooseProduct(xs[1]) /\ ~LooseSum(xs[1]) /\ (e.same # 1 \/ r # xs[1]), "rebuild")
               [] e.op = "roundtrip" ->
                    IF Field(e, "fail") THEN {"rejected"}
                    ELSE base \union If(/\ ~Ambiguous(xs[1]) /\ ~HasKind(xs[1], {"dbl"}) /\ \A s \in SymbolsOf(xs[1]) : s.p = 0
                                       /\ ~LooseWithin(xs[1]) /\ ~PolarAtan(xs[1])
                                       /\ (r # xs[1] \/ e.same # 1), "same")
               [] e.op \in Arith \union Powers -> base \union ExactClauses(e.op, xs, r)
               [] e.op \in ValueOps -> base
               [] e.op = "ncmp" -> CompareClauses(e, xs[1], xs[2])
               [] e.op = "numer" -> If(~WellFormed(r), "shape")
               [] e.op = "denom" -> FractionClauses(xs[1], xs[2], r)
               [] e.op \in {"gcd", "pgcd"} -> IF Field(e, "fail") THEN {} ELSE GcdClauses(xs[1], xs[2], r)
               [] e.op \in {"rem", "lrem"} -> DivisionClauses(xs[1], xs[2], xs[3], r)
               [] e.op = "prem" -> PseudoClauses(e, xs[1], xs[2], xs[3], xs[4], r)
               [] e.op = "poly" -> PolyClauses(e, xs[1], xs[2])
               [] e.op = "eq" -> EqClauses(e, xs[1], xs[2])
               [] e.op = "sign" -> SignClauses(e, xs[1])
               [] e.op = "todouble" -> DoubleClauses(e, xs[1])
               [] e.op = "toint" -> IntClauses(e, xs[1])
               [] e.op = "has" -> If((e.v = 1) # (Occurs(xs[2], xs[1]) /\ ~IsUnd(xs[2])), "has")
               [] e.op = "complexity" -> If(e.v < 1 /\ ~IsUnd(xs[1]), "positive") \union If(\E i \in DOMAIN e.co : e.co[i] >= e.v, "operands")
               [] e.op = "simpcx" -> If(e.v > e.e, "complexity")
               [] e.op = "query" -> QueryClauses(e, xs[1])
               [] e.op = "op" -> If(IF IsLeaf(xs[1]) THEN r # xs[1] ELSE r # xs[1].o[(e.x[1] % Len(xs[1].o)) + 1], "operand")
               [] e.op = "ptok" -> ParseClauses(e)
               [] e.op = "stream" -> StreamClauses(e, xs[1])
               [] e.op = "vstr" -> NameClauses(e)
               [] OTHER -> {}

Contract(e, xs, made, base) ==
    LET c == Clauses(e, xs, made, base)
    IN  IF c \cap Excusable # {} /\ \E i \in DOMAIN xs : Extreme(xs[i]) \/ (e.op \in Functions \union {"atan2"} /\ Scaled(xs[i])) \/ (e.op = "atan2" /\ Beyond(xs[i])) THEN c \ Excusable ELSE c
=============================================================================
