------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What a print engine is told: a sequence of tokens (records with a field *)
(* t).  The stream of an expression is a sentence of                       *)
(*                                                                         *)
(*   expr     ::= term { ("+" | "-") term }                                *)
(*   term     ::= ["~"] (factor | fraction) { "*" (factor | fraction)      *)
(*                                          | "/" factor }                 *)
(*   factor   ::= primary [ exponent ]                                     *)
(*   exponent ::= "exp(" scalar "exp)" | "cexp(" expr "cexp)"              *)
(*   fraction ::= "num(" expr "num)" "den(" expr "den)"                    *)
(*   primary  ::= scalar | "(" expr ")" | "sqrt(" expr "sqrt)"             *)
(*   scalar   ::= symbol | integer | double | function "(" expr            *)
(*                                                     [ "," expr ] ")"    *)
(*                                                                         *)
(* Flags of opening and closing tokens agree.  What is announced as scalar *)
(* (or is no sum, for numerators) needs no parentheses: a factor, or a     *)
(* single number.  Negative integers start a term.                         *)
(*                                                                         *)
(* Read(w, x) is <<>> or <<t>>, with the expression t that w denotes;      *)
(* Text(w, u) is what a plain text engine makes of it (u: with greek       *)
(* letters).                                                               *)
(***************************************************************************)
EXTENDS Parser

Suffix(c, s) == IF s = "" THEN "" ELSE IF Len(s) = 1 THEN c \o s ELSE (c \o "{") \o (s \o "}")
FullName(n, b, p) == n \o (Suffix("_", b) \o Suffix("^", p))

\* Code points are written in angle brackets
GreekCapital == [alpha |-> "<0391>", beta |-> "<0392>", gamma |-> "<0393>", delta |-> "<0394>", epsilon |-> "<0395>",
    zeta |-> "<0396>", eta |-> "<0397>", theta |-> "<0398>", iota |-> "<0399>", kappa |-> "<039a>", lambda |-> "<039b>",
    my |-> "<039c>", ny |-> "<039d>", xi |-> "<039e>", omikron |-> "<039f>", pi |-> "<03a0>", rho |-> "<03a1>",
    sigma |-> "<03a3>", tau |-> "<03a4>", ypsilon |-> "<03a5>", phi |-> "<03a6>", chi |-> "<03a7>", psi |-> "<03a8>",
    omega |-> "<03a9>"]
GreekSmall == [alpha |-> "<03b1>", beta |-> "<03b2>", gamma |-> "<03b3>", delta |-> "<03b4>", epsilon |-> "<03b5>",
    zeta |-> "<03b6>", eta |-> "<03b7>", theta |-> "<03b8>", iota |-> "<03b9>", kappa |-> "<03ba>", lambda |-> "<03bb>",
    my |-> "<03bc>", ny |-> "<03bd>", xi |-> "<03be>", omikron |-> "<03bf>", pi |-> "<03c0>", rho |-> "<03c1>",
    sigma |-> "<03c3>", tau |-> "<03c4>", ypsilon |-> "<03c5>", phi |-> "<03c6>", chi |-> "<03c7>", psi |-> "<03c8>",
    omega |-> "<03c9>"]
IsCapital(s) == s # "" /\ CharAt(s, 1) \in CharsOf(CapitalLetters)
Decapitalised(s) == IF s = "" THEN s ELSE SmallOf(CharAt(s, 1)) \o SubSeq(s, 2, Len(s))
Letter(n) == LET s == Decapitalised(n)
             IN  IF s \notin DOMAIN GreekSmall THEN n ELSE IF IsCapital(n) THEN GreekCapital[s] ELSE GreekSmall[s]

\* Without blanks
TokenText(k, u) ==
    CASE k.t = "sym" -> FullName(IF u THEN Letter(k.n) ELSE k.n, k.b, k.p)
      [] k.t \in {"int", "fct"} -> k.s
      [] k.t = "und" -> "Undefined"
      [] k.t = "~" -> "-"
      [] k.t \in {"+", "-", "*", "/", ",", "(", ")"} -> k.t
      [] k.t = "num(" -> IF k.f = 1 THEN "(" ELSE ""
      [] k.t = "num)" -> IF k.f = 1 THEN ")" ELSE ""
      [] k.t = "den(" -> IF k.f = 1 THEN "/" ELSE "/("
      [] k.t = "den)" -> IF k.f = 1 THEN "" ELSE ")"
      [] k.t = "exp(" -> "^" [] k.t = "exp)" -> ""
      [] k.t = "cexp(" -> "^(" [] k.t = "sqrt(" -> "sqrt("
      [] k.t \in {"cexp)", "sqrt)"} -> ")"
      [] OTHER -> "?"
RECURSIVE TextFrom(_, _, _)
TextFrom(w, i, u) == IF i > Len(w) THEN "" ELSE TokenText(w[i], u) \o TextFrom(w, i + 1, u)
Text(w, u) == TextFrom(w, 1, u)

Tok(w, i, t) == i <= Len(w) /\ w[i].t = t

\* cs: names of constants that symbols may stand for
NameTerm(k, cs) == LET n == FullName(k.n, k.b, k.p)
                   IN  IF k.q = 0 /\ n \in cs THEN [k |-> "cst", s |-> n] ELSE [k |-> "sym", s |-> n, p |-> k.q]

RECURSIVE SExpr(_, _, _)
RECURSIVE SExprRest(_, _, _, _)
RECURSIVE STerm(_, _, _)
RECURSIVE STermRest(_, _, _, _)
RECURSIVE SFactor(_, _, _)
RECURSIVE SFraction(_, _, _)
RECURSIVE SPrimary(_, _, _)
RECURSIVE SScalar(_, _, _)

\* between an opening and a closing token: match f at i, closed by c
Closed(m, w, c) == IF m # <<>> /\ Tok(w, m[2], c) THEN <<m[1], m[2] + 1>> ELSE <<>>

SScalar(w, i, cs) ==
    IF i > Len(w) THEN <<>>
    ELSE LET k == w[i] IN
         CASE k.t = "sym" -> <<NameTerm(k, cs), i + 1>>
           [] k.t = "int" -> IF k.g < 0 THEN <<>> ELSE <<[k |-> "num", g |-> k.g, n |-> k.n, d |-> <<1>>], i + 1>>
           [] k.t = "dbl" -> <<[k |-> "dbl", b |-> k.b], i + 1>>
           [] k.t = "fct" ->
                IF ~Tok(w, i + 1, "(") THEN <<>>
                ELSE LET u == SExpr(w, i + 2, cs)
                     IN  IF u = <<>> THEN <<>>
                         ELSE IF Tok(w, u[2], ",")
                              THEN LET v == Closed(SExpr(w, u[2] + 1, cs), w, ")")
                                   IN  IF v = <<>> THEN <<>> ELSE <<[k |-> "fct", s |-> k.s, o |-> <<u[1], v[1]>>], v[2]>>
                              ELSE LET v == Closed(u, w, ")")
                                   IN  IF v = <<>> THEN <<>> ELSE <<[k |-> "fct", s |-> k.s, o |-> <<u[1]>>], v[2]>>
           [] OTHER -> <<>>

SPrimary(w, i, cs) ==
    IF Tok(w, i, "(") THEN Closed(SExpr(w, i + 1, cs), w, ")")
    ELSE IF Tok(w, i, "sqrt(")
         THEN LET m == Closed(SExpr(w, i + 1, cs), w, "sqrt)") IN IF m = <<>> THEN <<>> ELSE <<Pow2(m[1], Num2(1, 2)), m[2]>>
    ELSE SScalar(w, i, cs)

SFactor(w, i, cs) ==
    LET m == SPrimary(w, i, cs)
    IN  IF m = <<>> THEN <<>>
        ELSE LET j == m[2]
                 e == IF Tok(w, j, "exp(") THEN Closed(SScalar(w, j + 1, cs), w, "exp)")
                      ELSE IF Tok(w, j, "cexp(") THEN Closed(SExpr(w, j + 1, cs), w, "cexp)")
                      ELSE <<One, j>>
             IN  IF e = <<>> THEN <<>> ELSE IF e[2] = j THEN m ELSE <<Pow2(m[1], e[1]), e[2]>>

NegativeInt(w, i) == Tok(w, i, "int") /\ w[i].g < 0
IntTerm(k) == [k |-> "num", g |-> k.g, n |-> k.n, d |-> <<1>>]

SFraction(w, i, cs) ==
    LET sum == w[i].f = 1
        num == IF sum THEN SExpr(w, i + 1, cs)
               ELSE IF NegativeInt(w, i + 1) THEN <<IntTerm(w[i + 1]), i + 2>> ELSE SFactor(w, i + 1, cs)
        j == IF num = <<>> THEN 0 ELSE num[2]
    IN  IF num = <<>> \/ ~Tok(w, j, "num)") \/ ~Tok(w, j + 1, "den(") THEN <<>>
        ELSE IF w[j].f # w[i].f THEN <<>>
        ELSE LET scalar == w[j + 1].f = 1
                 den == IF scalar THEN SFactor(w, j + 2, cs) ELSE SExpr(w, j + 2, cs)
             IN  IF den = <<>> THEN <<>>
                 ELSE IF ~Tok(w, den[2], "den)") THEN <<>>
                 ELSE IF w[den[2]].f # w[j + 1].f THEN <<>>
                 ELSE <<Mul2(num[1], Inv1(den[1])), den[2] + 1>>

FactorOrFraction(w, i, cs) == IF Tok(w, i, "num(") THEN SFraction(w, i, cs) ELSE SFactor(w, i, cs)

STermRest(w, i, l, cs) ==
    IF Tok(w, i, "*") THEN LET m == FactorOrFraction(w, i + 1, cs) IN IF m = <<>> THEN <<>> ELSE STermRest(w, m[2], Mul2(l, m[1]), cs)
    ELSE IF Tok(w, i, "/") THEN LET m == SFactor(w, i + 1, cs) IN IF m = <<>> THEN <<>> ELSE STermRest(w, m[2], Mul2(l, Inv1(m[1])), cs)
    ELSE <<l, i>>
STerm(w, i, cs) ==
    LET j == IF Tok(w, i, "~") THEN i + 1 ELSE i
        m == IF NegativeInt(w, j) THEN <<IntTerm(w[j]), j + 1>> ELSE FactorOrFraction(w, j, cs)
    IN  IF m = <<>> THEN <<>> ELSE STermRest(w, m[2], IF j = i THEN m[1] ELSE Neg1(m[1]), cs)

SExprRest(w, i, l, cs) ==
    IF Tok(w, i, "+") \/ Tok(w, i, "-")
    THEN LET m == STerm(w, i + 1, cs)
         IN  IF m = <<>> THEN <<>> ELSE SExprRest(w, m[2], Add2(l, IF w[i].t = "+" THEN m[1] ELSE Neg1(m[1])), cs)
    ELSE <<l, i>>
SExpr(w, i, cs) == LET m == STerm(w, i, cs) IN IF m = <<>> THEN <<>> ELSE SExprRest(w, m[2], m[1], cs)

Read(w, cs) == IF Len(w) = 1 /\ w[1].t = "und" THEN <<[k |-> "und"]>>
               ELSE LET m == SExpr(w, 1, cs) IN IF m # <<>> /\ m[2] = Len(w) + 1 THEN <<m[1]>> ELSE <<>>

Negated(t) == [t EXCEPT !.g = -@]
=============================================================================
