------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Exact arithmetic of integers and rational numbers of any size.          *)
(*                                                                         *)
(* A natural number is a sequence of limbs to the base 10^4, most          *)
(* significant first and without leading zeros (0 is <<0>>); a rational    *)
(* number a record with sign g, numerator n and denominator d.  TLC's      *)
(* integers have 32 bits: products of two limbs and a carry just fit.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LimbBase == 10000

\* inside, the least significant limb comes first
Flip(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
RECURSIVE Trim(_)
Trim(s) == IF Len(s) > 1 /\ s[1] = 0 THEN Trim(Tail(s)) ELSE s
Natural(s) == IF s = <<>> THEN <<0>> ELSE Trim(Flip(s))

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Longer(s, t) == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)

RECURSIVE AddFrom(_, _, _, _)
AddFrom(s, t, i, carry) ==
    IF i > Longer(s, t) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET v == At(s, i) + At(t, i) + carry IN <<v % LimbBase>> \o AddFrom(s, t, i + 1, v \div LimbBase)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(s, t, i, carry) == \* s >= t
    IF i > Len(s) THEN <<>>
    ELSE LET v == s[i] - At(t, i) - carry IN <<v % LimbBase>> \o SubFrom(s, t, i + 1, IF v < 0 THEN 1 ELSE 0)
RECURSIVE RowFrom(_, _, _, _)
RowFrom(s, m, i, carry) ==
    IF i > Len(s) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET v == (s[i] * m) + carry IN <<v % LimbBase>> \o RowFrom(s, m, i + 1, v \div LimbBase)
RECURSIVE MulFrom(_, _, _)
MulFrom(s, t, j) ==
    IF j > Len(t) THEN <<>>
    ELSE AddFrom(RowFrom(s, t[j], 1, 0), <<0>> \o MulFrom(s, t, j + 1), 1, 0)

NatAdd(m, n) == Natural(AddFrom(Flip(m), Flip(n), 1, 0))
NatSub(m, n) == Natural(SubFrom(Flip(m), Flip(n), 1, 0))
NatMul(m, n) == IF m = <<1>> THEN n ELSE IF n = <<1>> THEN m ELSE Natural(MulFrom(Flip(m), Flip(n), 1))

RECURSIVE LessFrom(_, _, _)
LessFrom(m, n, i) == IF i > Len(m) THEN FALSE ELSE IF m[i] # n[i] THEN m[i] < n[i] ELSE LessFrom(m, n, i + 1)
NatLess(m, n) == IF Len(m) # Len(n) THEN Len(m) < Len(n) ELSE LessFrom(m, n, 1)

NatOdd(m) == m[Len(m)] % 2 = 1
RECURSIVE HalveFrom(_, _, _)
HalveFrom(m, i, carry) == IF i > Len(m) THEN <<>> ELSE LET v == m[i] + (carry * LimbBase) IN <<v \div 2>> \o HalveFrom(m, i + 1, v % 2)
NatHalf(m) == Trim(HalveFrom(m, 1, 0))

\* The odd part of the greatest common divisor of m > 0 and an odd n > 0
RECURSIVE OddGcd(_, _)
OddGcd(m, n) ==
    IF m = <<0>> THEN n
    ELSE IF ~NatOdd(m) THEN OddGcd(NatHalf(m), n)
    ELSE IF NatLess(m, n) THEN OddGcd(NatSub(n, m), m)
    ELSE OddGcd(NatSub(m, n), n)
Coprime(m, n) ==
    IF n = <<1>> \/ m = <<1>> THEN TRUE
    ELSE IF NatOdd(n) THEN OddGcd(m, n) = <<1>>
    ELSE IF NatOdd(m) THEN OddGcd(n, m) = <<1>>
    ELSE FALSE

-----------------------------------------------------------------------------
(* Signed integers [g, n] *)

IntMul(i, j) == [g |-> i.g * j.g, n |-> IF i.g * j.g = 0 THEN <<0>> ELSE NatMul(i.n, j.n)]
IntNeg(i) == [i EXCEPT !.g = -i.g]
IntAdd(i, j) ==
    IF i.g = 0 THEN j ELSE IF j.g = 0 THEN i
    ELSE IF i.g = j.g THEN [g |-> i.g, n |-> NatAdd(i.n, j.n)]
    ELSE IF i.n = j.n THEN [g |-> 0, n |-> <<0>>]
    ELSE IF NatLess(i.n, j.n) THEN [g |-> j.g, n |-> NatSub(j.n, i.n)]
    ELSE [g |-> i.g, n |-> NatSub(i.n, j.n)]

-----------------------------------------------------------------------------
(* Rational numbers [g, n, d] *)

Top(q) == [g |-> q.g, n |-> q.n]
Bottom(q) == [g |-> 1, n |-> q.d]
\* r = t/u for integers t and u # 0
IsQuotient(r, t, u) == IntMul(Top(r), u) = IntMul(t, Bottom(r))
Cross(p, q) == IntMul(Top(p), Bottom(q))

IsRatSum(r, p, q) == IsQuotient(r, IntAdd(Cross(p, q), Cross(q, p)), IntMul(Bottom(p), Bottom(q)))
IsRatDifference(r, p, q) == IsQuotient(r, IntAdd(Cross(p, q), IntNeg(Cross(q, p))), IntMul(Bottom(p), Bottom(q)))
IsRatProduct(r, p, q) == IsQuotient(r, IntMul(Top(p), Top(q)), IntMul(Bottom(p), Bottom(q)))
IsRatQuotient(r, p, q) == IsRatProduct(p, r, q)

\* -1, 0, 1: p < q, p = q, p > q
RatOrder(p, q) ==
    LET l == Len(p.n) + Len(q.d) \* so many limbs, or one less, has the product
        r == Len(q.n) + Len(p.d)
    IN  IF p.g # q.g THEN (IF p.g < q.g THEN -1 ELSE 1)
        ELSE IF l > r + 1 THEN p.g ELSE IF r > l + 1 THEN -p.g
        ELSE IntAdd(Cross(p, q), IntNeg(Cross(q, p))).g
InLowestTerms(q) == IF q.g = 0 THEN q.n = <<0>> /\ q.d = <<1>> ELSE Coprime(q.n, q.d)

RECURSIVE NatPow(_, _)
NatPow(m, k) == IF k = 0 THEN <<1>> ELSE LET h == NatPow(m, k \div 2) IN IF k % 2 = 1 THEN NatMul(m, NatMul(h, h)) ELSE NatMul(h, h)
\* q^k for an integer k; q # 0 where k < 0
RatPow(q, k) ==
    LET e == IF k < 0 THEN -k ELSE k
        up == NatPow(q.n, e)
        down == NatPow(q.d, e)
    IN  [g |-> IF q.g < 0 /\ e % 2 = 0 THEN 1 ELSE IF q.g = 0 /\ k = 0 THEN 1 ELSE q.g,
         n |-> IF k < 0 THEN down ELSE up, d |-> IF k < 0 THEN up ELSE down]
=============================================================================
