-------------------------------- MODULE GFp --------------------------------
(***************************************************************************)
(* The prime field with P elements: the exact model in which identities of *)
(* rational functions over the integers are tested (an identity over Q     *)
(* holds modulo P wherever no denominator vanishes).  P is the largest     *)
(* prime whose square fits TLC's integers.                                 *)
(*                                                                         *)
(* GNone: division by zero, nothing can be concluded from this point.      *)
(* GAlien: not a rational expression.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

P == 46337

GNone == -1
GAlien == -2

GBad(x) == x < 0
GWorst(x, y) == IF x = GAlien \/ y = GAlien THEN GAlien ELSE GNone

GAdd(x, y) == IF GBad(x) \/ GBad(y) THEN GWorst(x, y) ELSE (x + y) % P
GMul(x, y) == IF GBad(x) \/ GBad(y) THEN GWorst(x, y) ELSE (x * y) % P
GNeg(x) == IF GBad(x) THEN x ELSE (P - x) % P

RECURSIVE GPowNat(_, _)
GPowNat(x, n) ==
    IF n = 0 THEN 1
    ELSE LET h == GPowNat((x * x) % P, n \div 2) IN IF n % 2 = 1 THEN (x * h) % P ELSE h

GInv(x) == IF GBad(x) THEN x ELSE IF x = 0 THEN GNone ELSE GPowNat(x, P - 2)

GSub(x, y) == GAdd(x, GNeg(y))
GDiv(x, y) == GMul(x, GInv(y))

\* x^n for an integer n; 0^0 does not exist
GPow(x, n) ==
    IF GBad(x) THEN x
    ELSE IF x = 0 THEN (IF n > 0 THEN 0 ELSE GNone)
    ELSE LET m == n % (P - 1) IN GPowNat(x, m)

\* Natural number as limbs to the base 10^4, most significant first
RECURSIVE GLimbs(_, _, _)
GLimbs(limbs, i, acc) == IF i > Len(limbs) THEN acc ELSE GLimbs(limbs, i + 1, (acc * 10000 + limbs[i]) % P)

GNat(limbs) == GLimbs(limbs, 1, 0)
GRat(sign, num, den) ==
    IF sign = 0 THEN 0
    ELSE LET q == IF den = <<1>> THEN GNat(num) ELSE GDiv(GNat(num), GNat(den))
         IN  IF sign < 0 THEN GNeg(q) ELSE q
=============================================================================
