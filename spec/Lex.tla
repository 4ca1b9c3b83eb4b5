-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* Characters and words: names of symbols, numerals.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

SmallLetters == "abcdefghijklmnopqrstuvwxyz"
CapitalLetters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
CharAt(s, i) == SubSeq(s, i, i)
CharsOf(s) == {CharAt(s, i) : i \in 1..Len(s)}
SmallOf(c) == IF c \in CharsOf(CapitalLetters) THEN CharAt(SmallLetters, CHOOSE i \in 1..26 : CharAt(CapitalLetters, i) = c) ELSE c

Alnum == CharsOf(SmallLetters) \union CharsOf(CapitalLetters) \union CharsOf(Digits)
Alpha == CharsOf(SmallLetters) \union CharsOf(CapitalLetters)
Only(s, cs) == CharsOf(s) \subseteq cs
\* Position of the first underscore, or 0
Underscore(s) == IF \E i \in 1..Len(s) : CharAt(s, i) = "_" THEN CHOOSE i \in 1..Len(s) : CharAt(s, i) = "_" /\ \A j \in 1..(i - 1) : CharAt(s, j) # "_" ELSE 0
RECURSIVE SmallText(_)
SmallText(s) == IF s = "" THEN "" ELSE SmallOf(CharAt(s, 1)) \o SmallText(SubSeq(s, 2, Len(s)))

IsWord(s) == s # "" /\ CharAt(s, 1) \in Alpha /\ Only(s, Alnum)
\* <<name, subscript>> of a symbol, <<>> for other texts
Split(s) ==
    LET i == Underscore(s)
        n == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
        b == IF i = 0 THEN "" ELSE SubSeq(s, i + 1, Len(s))
        inner == SubSeq(b, 2, Len(b) - 1)
    IN  IF ~IsWord(n) THEN <<>>
        ELSE IF i = 0 THEN (IF SmallText(n) \in {"pi", "euler"} THEN <<>> ELSE <<n, "">>)
        ELSE IF Len(b) = 1 /\ Only(b, Alnum) THEN <<n, b>>
        ELSE IF Len(b) >= 3 /\ CharAt(b, 1) = "{" /\ CharAt(b, Len(b)) = "}" /\ Only(inner, Alnum) THEN <<n, inner>>
        ELSE <<>>
IsNumeral(s) == s # "" /\ Only(s, CharsOf(Digits))
\* Characters of the expression language.  Texts with others are none.
Language == Alnum \union CharsOf("+-*/^()_{}., ")
Blank(s) == Only(s, {" "})
RECURSIVE DigitAt(_)
DigitAt(c) == (CHOOSE i \in 1..10 : CharAt(Digits, i) = c) - 1
RECURSIVE LimbsOf(_)
LimbsOf(s) == IF Len(s) <= 4 THEN <<IF Len(s) = 1 THEN DigitAt(s)
                                   ELSE IF Len(s) = 2 THEN (DigitAt(CharAt(s, 1)) * 10) + DigitAt(CharAt(s, 2))
                                   ELSE IF Len(s) = 3 THEN (DigitAt(CharAt(s, 1)) * 100) + (DigitAt(CharAt(s, 2)) * 10) + DigitAt(CharAt(s, 3))
                                   ELSE (DigitAt(CharAt(s, 1)) * 1000) + (DigitAt(CharAt(s, 2)) * 100) + (DigitAt(CharAt(s, 3)) * 10) + DigitAt(CharAt(s, 4))>>
              ELSE LimbsOf(SubSeq(s, 1, Len(s) - 4)) \o LimbsOf(SubSeq(s, Len(s) - 3, Len(s)))
RECURSIVE Stripped(_)
Stripped(l) == IF Len(l) > 1 /\ l[1] = 0 THEN Stripped(Tail(l)) ELSE l
IntOf(s) == LET l == Stripped(LimbsOf(s)) IN [k |-> "num", g |-> IF l = <<0>> THEN 0 ELSE 1, n |-> l, d |-> <<1>>]

\* Decimal fractions: <<digits, number of decimals>>, or <<>>
Dot(s) == IF \E i \in 1..Len(s) : CharAt(s, i) = "." THEN CHOOSE i \in 1..Len(s) : CharAt(s, i) = "." ELSE 0
IsDecimal(s) == LET i == Dot(s) IN i > 0 /\ Len(s) > 1 /\ Len(s) <= 9 /\ Len(s) - i <= 4 /\ Only(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), CharsOf(Digits))
RECURSIVE SmallNat(_)
SmallNat(s) == IF s = "" THEN 0 ELSE (SmallNat(SubSeq(s, 1, Len(s) - 1)) * 10) + DigitAt(CharAt(s, Len(s)))
RECURSIVE Common(_, _)
Common(m, n) == IF n = 0 THEN m ELSE Common(n, m % n)
Limbs2(n) == IF n < 10000 THEN <<n>> ELSE <<n \div 10000, n % 10000>>
DecimalOf(s) == LET i == Dot(s)
                    n == SmallNat(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
                    q == 10^(Len(s) - i)
                    f == Common(n, q)
                IN  [k |-> "num", g |-> IF n = 0 THEN 0 ELSE 1, n |-> Limbs2(n \div f), d |-> Limbs2(q \div f)]
=============================================================================
