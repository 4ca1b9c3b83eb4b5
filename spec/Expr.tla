-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expressions and what they mean.                                         *)
(*                                                                         *)
(* An expression is a record with a kind k:                                *)
(*   num  g, n, d   rational number: sign g, limbs n / limbs d (base 10^4) *)
(*   dbl  b         floating point number, four 16 bit words               *)
(*   sym  s, p      symbol with name s, positive iff p = 1                 *)
(*   cst  s         constant, "pi" or "e"                                  *)
(*   fct  s, o      function with name s and arguments o                   *)
(*   sum  o         prd  o      pow  o = <<base, exponent>>                *)
(*   und            Undefined                                              *)
(*                                                                         *)
(* Meaning is given by evaluation in two domains: exactly, modulo P, for   *)
(* rational expressions (G) and by real enclosures for everything (R), in  *)
(* an environment that assigns values to symbols.                          *)
(***************************************************************************)
EXTENDS GFp, RealIv, TLC, FiniteSets

Range(f) == {f[i] : i \in DOMAIN f}

-----------------------------------------------------------------------------
(* Construction and inspection *)

NumOf(i) == [k |-> "num", g |-> (IF i < 0 THEN -1 ELSE IF i = 0 THEN 0 ELSE 1),
             n |-> <<IF i < 0 THEN -i ELSE i>>, d |-> <<1>>]   \* |i| < 10^4
Zero == NumOf(0)
One == NumOf(1)

IsUnd(t) == t.k = "und"
IsNum(t) == t.k = "num"
IsInt(t) == t.k = "num" /\ t.d = <<1>>
IsLeaf(t) == t.k \in {"num", "dbl", "sym", "cst", "und"}
Ops(t) == IF IsLeaf(t) THEN <<>> ELSE t.o

\* An integer small enough for TLC
SmallInt(t) == IsInt(t) /\ Len(t.n) <= 2
IntVal(t) == t.g * (IF Len(t.n) = 1 THEN t.n[1] ELSE t.n[1] * 10000 + t.n[2])

RECURSIVE Subterms(_)
Subterms(t) == {t} \union UNION {Subterms(c) : c \in Range(Ops(t))}

RECURSIVE SymbolsOf(_)
SymbolsOf(t) == IF t.k = "sym" THEN {t} ELSE UNION {SymbolsOf(c) : c \in Range(Ops(t))}

RECURSIVE Occurs(_, _)
Occurs(x, t) == t = x \/ \E i \in DOMAIN Ops(t) : Occurs(x, t.o[i])

RECURSIVE HasKind(_, _)
HasKind(t, kinds) == t.k \in kinds \/ \E i \in DOMAIN Ops(t) : HasKind(t.o[i], kinds)

RECURSIVE HasFct(_, _)
HasFct(t, names) == (t.k = "fct" /\ t.s \in names) \/ \E i \in DOMAIN Ops(t) : HasFct(t.o[i], names)

RECURSIVE SizeOf(_)
RECURSIVE SizeSum(_, _)
SizeSum(o, i) == IF i > Len(o) THEN 0 ELSE SizeOf(o[i]) + SizeSum(o, i + 1)
SizeOf(t) == 1 + SizeSum(Ops(t), 1)

\* Rational expressions: numbers and symbols, integer powers
RECURSIVE IsRational(_)
IsRational(t) ==
    CASE t.k \in {"num", "sym"} -> TRUE
      [] t.k \in {"sum", "prd"} -> \A i \in DOMAIN t.o : IsRational(t.o[i])
      [] t.k = "pow" -> IsRational(t.o[1]) /\ SmallInt(t.o[2])
      [] OTHER -> FALSE

\* ... and polynomials
RECURSIVE IsPoly(_)
IsPoly(t) ==
    CASE t.k \in {"num", "sym"} -> TRUE
      [] t.k \in {"sum", "prd"} -> \A i \in DOMAIN t.o : IsPoly(t.o[i])
      [] t.k = "pow" -> IsPoly(t.o[1]) /\ SmallInt(t.o[2]) /\ t.o[2].g > 0
      [] OTHER -> FALSE

IsPolyIn(t) == t.k \in {"num", "sym", "sum", "prd", "pow"} /\ IsPoly(t)

-----------------------------------------------------------------------------
(* Sample points.  Names outside of the list share one slot; different
   names of one program never do, as programs draw from the list. *)

Slot(t) ==
    LET i == CASE t.s = "a" -> 1 [] t.s = "b" -> 2 [] t.s = "c" -> 3 [] t.s = "d" -> 4 [] t.s = "x" -> 5
               [] t.s = "y" -> 6 [] t.s = "z" -> 7 [] OTHER -> 8
    IN  IF t.p = 1 THEN i + 8 ELSE i

GPoints == 1..2
GTable == << <<1234, 40961, 777, 31337, 20011, 9871, 15013, 27644, 5501, 38917, 12007, 44444, 8191, 30103, 17389, 2718>>,
             <<33331, 2203, 19937, 607, 44497, 11213, 9689, 4423, 21701, 23209, 1279, 521, 39916, 29423, 41041, 6174>> >>

\* numerators over 1000, all of them generic: no small integer relations
\* (the last four with small and large values: for the signs)
RPoints == 1..4
SignPoints == 1..8
RTable == << <<  1373,  2611, -1787,   619,  -853,  1931,   431, -2207,   727,  1459,  2081,   313,  1123,   587,  1847,   941>>,
             << -1213,   467,  2339, -1571,   709, -1013,  1699,   353,  1663,   397,   883,  2243,   541,  1291,   239,  1487>>,
             <<   541,   823,   347,  1129,   683,   211,   919,   449,   613,   277,   761,   157,  1367,   991,   331,   839>>,
             <<  2777,  3413,  4127,  1901, -3019,  2593, -1613,  3709,  3181,  2087,  1531,  4463,  2953,  3307,  1721,  2389>>,
             <<    37,   -59,   101,   -17,    43,   -71,    29,    13,    37,    59,   101,    17,    43,    71,    29,    13>>,
             << -9973,  8111, -7019,  9413,  8887, -9511,  7793, -8461,  9973,  8111,  7019,  9413,  8887,  9511,  7793,  8461>>,
             <<  -347,  -911, -2153,  -503,  -709, -1187,  -269, -1741,    23,  9437,   109,  6211,    47,  7853,    31,  5119>>,
             <<  5417,    61,  -151,  3821,  4787,   -83,   227, -6053,  8311,    41,  5923,    19,  6473,    53,  9011,    67>> >>

\* names that share the last slot are told apart by an offset
Offset(t) == CASE t.s = "abc" -> 37 [] t.s = "y_1" -> 59 [] t.s = "y_{12}" -> 83 [] t.s = "z_{12}" -> 101 [] t.s = "a_b" -> 127 [] t.s = "a_1" -> 149
               [] t.s = "a_2" -> 173 [] t.s = "sin" -> 191 [] t.s = "e" -> 211 [] t.s = "pivot" -> 229 [] t.s = "k_1^2" -> 241
               [] t.s = "pp_1" -> 1307 [] t.s = "pp_2" -> 659 [] t.s = "pp_{12}" -> 1549 [] t.s = "pp_3" -> 839 [] t.s = "p_{abc}" -> 1627
               [] t.s = "p_{abcd}" -> 1453 [] t.s = "p_{ab}" -> 1693 [] t.s = "q" -> 1381 [] t.s = "alpha" -> 1151 [] t.s = "beta" -> 293
               [] t.s = "alpha_1" -> 1033 [] t.s = "Alpha" -> 1607 [] t.s = "B" -> 647 [] t.s = "A" -> 1637 [] t.s = "aa" -> 337 [] t.s = "ab" -> 499
               [] t.s = "x1" -> 431 [] t.s = "x10" -> 863 [] t.s = "x2" -> 1039 [] t.s = "x3" -> 1609 [] t.s = "beta_1" -> 881
               [] t.s = "beta_2" -> 1181 [] t.s = "Omega_{12}" -> 419 [] t.s = "x_b" -> 1229 [] t.s = "phi" -> 1567 [] t.s = "my_{A9}" -> 271
               [] t.s = "a_{bc}" -> 601 [] t.s = "ab_c" -> 937 [] t.s = "a_{12}" -> 701 [] t.s = "lambda" -> 547 [] OTHER -> 0
GSym(t, pt) == GTable[pt][Slot(t)] + Offset(t)
RSym(t, pt) == LET v == RTable[pt][Slot(t)] + Offset(t)
                   a == IF v < 0 THEN -v ELSE v
               IN  IvRat(IF v < 0 THEN -1 ELSE 1, IF a >= 10000 THEN <<a \div 10000, a % 10000>> ELSE <<a>>, <<1000>>)

\* An environment: sample point and one optional binding (from |-> value), which takes precedence over structure
Env(pt) == [pt |-> pt, from |-> <<>>, val |-> 0]
Bind(pt, from, val) == [pt |-> pt, from |-> <<from>>, val |-> val]
Bound(t, env) == env.from # <<>> /\ env.from[1] = t

-----------------------------------------------------------------------------
(* Exact evaluation *)

RECURSIVE G(_, _)
RECURSIVE GSumOf(_, _, _, _)
RECURSIVE GPrdOf(_, _, _, _)

GSumOf(o, i, acc, env) == IF i > Len(o) \/ acc = GAlien THEN acc ELSE GSumOf(o, i + 1, GAdd(acc, G(o[i], env)), env)
GPrdOf(o, i, acc, env) == IF i > Len(o) \/ acc = GAlien THEN acc ELSE GPrdOf(o, i + 1, GMul(acc, G(o[i], env)), env)

G(t, env) ==
    IF Bound(t, env) THEN env.val
    ELSE CASE t.k = "num" -> GRat(t.g, t.n, t.d)
           [] t.k = "sym" -> GSym(t, env.pt)
           [] t.k = "sum" -> GSumOf(t.o, 1, 0, env)
           [] t.k = "prd" -> GPrdOf(t.o, 1, 1, env)
           [] t.k = "pow" -> IF SmallInt(t.o[2]) /\ ~Bound(t.o[2], env)
                             THEN GPow(G(t.o[1], env), IntVal(t.o[2])) ELSE GAlien
           [] OTHER -> GAlien

-----------------------------------------------------------------------------
(* Real evaluation *)

RFct(s, x) ==
    CASE s = "sin" -> IvSin(x) [] s = "cos" -> IvCos(x) [] s = "tan" -> IvTan(x)
      [] s = "asin" -> IvAsin(x) [] s = "acos" -> IvAcos(x) [] s = "atan" -> IvAtan(x)
      [] s = "log" -> IvLog(x)
      [] OTHER -> Unknown

\* x^e where the exponent has the expression t (or none that is known)
RPow(x, e, t) ==
    IF SmallInt(t) THEN IvPowInt(x, IntVal(t))
    ELSE IvPow(x, e, t.k = "num" /\ t.d # <<1>>)

RECURSIVE R(_, _)
RECURSIVE RSumOf(_, _, _, _)
RECURSIVE RPrdOf(_, _, _, _)

RSumOf(o, i, acc, env) == IF i > Len(o) THEN acc ELSE RSumOf(o, i + 1, IvAdd(acc, R(o[i], env)), env)
RPrdOf(o, i, acc, env) == IF i > Len(o) THEN acc ELSE RPrdOf(o, i + 1, IvMul(acc, R(o[i], env)), env)

R(t, env) ==
    IF Bound(t, env) THEN env.val
    ELSE CASE t.k = "num" -> IvRat(t.g, t.n, t.d)
           [] t.k = "sym" -> RSym(t, env.pt)
           [] t.k = "sum" -> RSumOf(t.o, 2, R(t.o[1], env), env)
           [] t.k = "prd" -> RPrdOf(t.o, 2, R(t.o[1], env), env)
           [] t.k = "pow" -> IF Bound(t.o[2], env)
                             THEN IvPow(R(t.o[1], env), env.val, FALSE)
                             ELSE RPow(R(t.o[1], env), R(t.o[2], env), t.o[2])
           [] t.k = "fct" -> IF Len(t.o) = 1 THEN RFct(t.s, R(t.o[1], env))
                             ELSE IvAtan2(R(t.o[1], env), R(t.o[2], env))
           [] t.k = "cst" -> IF t.s = "pi" THEN IvPi ELSE IvE
           [] t.k = "dbl" -> IvDouble(t.b)
           [] t.k = "und" -> None
           [] OTHER -> Unknown

-----------------------------------------------------------------------------
(* Real value and derivative with respect to the symbol s: pairs <<value, derivative>> *)

RZero == IvRat(0, <<0>>, <<1>>)
ROne == IvRat(1, <<1>>, <<1>>)
RTwo == IvRat(1, <<2>>, <<1>>)

DFct(f, v) ==      \* derivative of the function f at v
    CASE f = "sin" -> IvCos(v)
      [] f = "cos" -> IvNeg(IvSin(v))
      [] f = "tan" -> IvAdd(ROne, IvPowInt(IvTan(v), 2))
      [] f = "asin" -> IvInv(IvPow(IvSub(ROne, IvPowInt(v, 2)), IvRat(1, <<1>>, <<2>>), TRUE))
      [] f = "acos" -> IvNeg(IvInv(IvPow(IvSub(ROne, IvPowInt(v, 2)), IvRat(1, <<1>>, <<2>>), TRUE)))
      [] f = "atan" -> IvInv(IvAdd(ROne, IvPowInt(v, 2)))
      [] f = "log" -> IF IvNone(IvLog(v)) THEN None ELSE IvInv(v)
      [] OTHER -> Unknown

RECURSIVE D(_, _, _)
RECURSIVE DSumOf(_, _, _, _, _)
RECURSIVE DPrdOf(_, _, _, _, _)

DSumOf(o, i, acc, s, env) ==
    IF i > Len(o) THEN acc
    ELSE LET x == D(o[i], s, env) IN DSumOf(o, i + 1, <<IvAdd(acc[1], x[1]), IvAdd(acc[2], x[2])>>, s, env)
DPrdOf(o, i, acc, s, env) ==
    IF i > Len(o) THEN acc
    ELSE LET x == D(o[i], s, env)
         IN  DPrdOf(o, i + 1, <<IvMul(acc[1], x[1]), IvAdd(IvMul(acc[1], x[2]), IvMul(acc[2], x[1]))>>, s, env)

D(t, s, env) ==
    IF t = s THEN <<R(t, env), ROne>>
    ELSE IF ~Occurs(s, t) THEN <<R(t, env), RZero>>
    ELSE CASE t.k = "sum" -> DSumOf(t.o, 2, D(t.o[1], s, env), s, env)
           [] t.k = "prd" -> DPrdOf(t.o, 2, D(t.o[1], s, env), s, env)
           [] t.k = "pow" ->
                LET b == D(t.o[1], s, env)
                    e == D(t.o[2], s, env)
                    v == RPow(b[1], e[1], t.o[2])
                    \* exponent * base^(exponent - 1) * base'
                    lower == IF SmallInt(t.o[2])
                             THEN IF t.o[2] = One THEN ROne ELSE IvPowInt(b[1], IntVal(t.o[2]) - 1)
                             ELSE IvPow(b[1], IvSub(e[1], ROne), FALSE)
                    first == IvMul(IvMul(e[1], lower), b[2])
                    second == IvMul(IvMul(v, IvLog(b[1])), e[2])
                IN  <<v, IF ~Occurs(s, t.o[2]) THEN first
                         ELSE IF ~Occurs(s, t.o[1]) THEN second ELSE IvAdd(first, second)>>
           [] t.k = "fct" /\ Len(t.o) = 1 ->
                LET x == D(t.o[1], s, env) IN <<RFct(t.s, x[1]), IvMul(DFct(t.s, x[1]), x[2])>>
           [] t.k = "fct" /\ t.s = "atan2" ->
                LET n == D(t.o[1], s, env)
                    m == D(t.o[2], s, env)
                IN  <<IvAtan2(n[1], m[1]), IvDiv(IvSub(IvMul(n[2], m[1]), IvMul(n[1], m[2])), IvAdd(IvPowInt(n[1], 2), IvPowInt(m[1], 2)))>>
           [] OTHER -> <<Unknown, Unknown>>

(* Exact derivative of rational expressions *)
RECURSIVE DG(_, _, _)
RECURSIVE DGSumOf(_, _, _, _, _)
RECURSIVE DGPrdOf(_, _, _, _, _)
DGSumOf(o, i, acc, s, env) ==
    IF i > Len(o) THEN acc
    ELSE LET x == DG(o[i], s, env) IN DGSumOf(o, i + 1, <<GAdd(acc[1], x[1]), GAdd(acc[2], x[2])>>, s, env)
DGPrdOf(o, i, acc, s, env) ==
    IF i > Len(o) THEN acc
    ELSE LET x == DG(o[i], s, env)
         IN  DGPrdOf(o, i + 1, <<GMul(acc[1], x[1]), GAdd(GMul(acc[1], x[2]), GMul(acc[2], x[1]))>>, s, env)
DG(t, s, env) ==
    IF t = s THEN <<G(t, env), 1>>
    ELSE IF t.k \in {"num", "sym"} THEN <<G(t, env), 0>>
    ELSE CASE t.k = "sum" -> DGSumOf(t.o, 1, <<0, 0>>, s, env)
           [] t.k = "prd" -> DGPrdOf(t.o, 1, <<1, 0>>, s, env)
           [] t.k = "pow" -> IF ~SmallInt(t.o[2]) THEN <<GAlien, GAlien>>
                             ELSE LET b == DG(t.o[1], s, env)
                                      n == IntVal(t.o[2])
                                  IN  <<GPow(b[1], n), GMul(GMul(n % P, IF n = 1 THEN 1 ELSE GPow(b[1], n - 1)), b[2])>>
           [] OTHER -> <<GAlien, GAlien>>

-----------------------------------------------------------------------------
(* Printed text does not tell that a symbol is positive: the symbols of t with names that are positive in S *)

RECURSIVE Repos(_, _)
Repos(t, S) ==
    IF t.k = "sym" THEN (IF [t EXCEPT !.p = 1] \in S THEN [t EXCEPT !.p = 1] ELSE t)
    ELSE IF IsLeaf(t) THEN t
    ELSE [t EXCEPT !.o = [i \in DOMAIN t.o |-> Repos(t.o[i], S)]]

-----------------------------------------------------------------------------
(* Canonical shape of sums, products and powers that automatic simplification guarantees *)

\* like terms: equal but for a numeric coefficient; like factors: integer powers of the same base
TermOf(t) == IF t.k = "prd" /\ t.o[1].k = "num" THEN Tail(t.o) ELSE <<t>>
LikeTerms(t) == \E i, j \in DOMAIN t.o : i < j /\ t.o[i].k # "num" /\ TermOf(t.o[i]) = TermOf(t.o[j])
BaseOf(t) == IF t.k = "pow" /\ IsInt(t.o[2]) THEN t.o[1] ELSE t
LikeFactors(t) == \E i, j \in DOMAIN t.o : i < j /\ BaseOf(t.o[i]) = BaseOf(t.o[j]) 
                                 /\ \A l \in {i, j} : (t.o[l].k = "pow") => (IsInt(t.o[l].o[2]) /\ (t.o[l].o[1].k # "pow" \/ IsInt(t.o[l].o[1].o[2])))

RECURSIVE WellFormed(_)
WellFormed(t) ==
    /\ t.k # "bad"
    /\ t.k = "num" => /\ t.g \in {-1, 0, 1}
                      /\ t.d # <<0>> /\ (t.n = <<0>> <=> t.g = 0)
                      /\ t.g = 0 => t.d = <<1>>
    /\ t.k = "sum" => /\ Len(t.o) >= 2
                      /\ \A i \in DOMAIN t.o : t.o[i].k # "sum"
                      /\ Cardinality({i \in DOMAIN t.o : t.o[i].k \in {"num", "dbl"}}) <= 1
                      /\ \A i \in DOMAIN t.o : t.o[i] # Zero
                      /\ ~LikeTerms(t)
    /\ t.k = "prd" => /\ Len(t.o) >= 2
                      /\ \A i \in DOMAIN t.o : t.o[i].k # "prd"
                      /\ Cardinality({i \in DOMAIN t.o : t.o[i].k \in {"num", "dbl"}}) <= 1
                      /\ \A i \in DOMAIN t.o : t.o[i] # Zero /\ t.o[i] # One
                      /\ ~LikeFactors(t)
    /\ t.k = "pow" => /\ Len(t.o) = 2
                      /\ t.o[2] # Zero /\ t.o[2] # One /\ t.o[1] # Zero /\ t.o[1] # One
    /\ t.k = "fct" => t.s \in {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "log"}
    /\ \A i \in DOMAIN Ops(t) : t.o[i].k # "und" /\ WellFormed(t.o[i])

\* Multiplied out: no sum among the factors of a product, no positive integer power of a sum, in sums and products
RECURSIVE Expanded(_)
Expanded(t) ==
    /\ t.k = "prd" => \A i \in DOMAIN t.o : t.o[i].k # "sum" /\ Expanded(t.o[i])
    /\ t.k = "sum" => \A i \in DOMAIN t.o : Expanded(t.o[i])
    /\ t.k = "pow" => ~(t.o[1].k = "sum" /\ IsInt(t.o[2]) /\ t.o[2].g > 0)
=============================================================================
