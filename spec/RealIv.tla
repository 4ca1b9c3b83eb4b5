------------------------------- MODULE RealIv -------------------------------
(***************************************************************************)
(* Interval enclosures of real numbers.  TLC has no real numbers, so the   *)
(* operators are overridden by the Java class RealIv (java/RealIv.java),   *)
(* which computes with outward-rounded IEEE doubles.                       *)
(*                                                                         *)
(* A value stands for what is known about one real number:                 *)
(*    <<>>              it does not exist (operation outside its domain)   *)
(*    <<0>>             nothing is known                                   *)
(*    <<a, b, c, d>>    it lies in the interval with the bounds that have  *)
(*                      the high/low words a, b and c, d                   *)
(* Contract of every operator: the exact image of the arguments lies in    *)
(* the result.  The definitions below are the least informative ones that  *)
(* satisfy the contract; the override refines them.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

None == <<>>
Unknown == <<0>>

IvRat(sign, num, den) == Unknown  \* sign * num/den, limbs to the base 10^4, most significant first
IvDouble(words) == Unknown        \* a double computed by the library: a few rounding errors wide
IvPi == Unknown
IvE == Unknown
IvAdd(x, y) == Unknown
IvNeg(x) == Unknown
IvMul(x, y) == Unknown
IvInv(x) == Unknown
IvPowInt(x, n) == Unknown         \* integer exponent, 0^0 and 0^-1 do not exist
IvPow(x, y, frac) == Unknown      \* real exponent, negative bases only with integer exponents; frac: y is no integer
IvLog(x) == Unknown
IvSin(x) == Unknown
IvCos(x) == Unknown
IvTan(x) == Unknown
IvAsin(x) == Unknown
IvAcos(x) == Unknown
IvAtan(x) == Unknown
IvAtan2(y, x) == Unknown
IvKnown(x) == Len(x) = 4
IvNone(x) == x = <<>>
IvApart(x, y) == FALSE            \* both exist and differ, for certain
IvSharp(x, y) == FALSE            \* both are enclosed tightly
IvPositive(x) == FALSE
IvNegative(x) == FALSE
IvNonNegative(x) == FALSE
IvShow(x) == ""
RatNear(words, sign, num, den, mode) == TRUE  \* the double is the rational number: as near as can be (mode 0), give or take rounding errors (1)

IvSub(x, y) == IvAdd(x, IvNeg(y))
IvDiv(x, y) == IvMul(x, IvInv(y))
=============================================================================
