------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The expression language, over sequences of tokens:                      *)
(*                                                                         *)
(*   expression ::= ["+"] summand { ("+" | "-") summand }                  *)
(*   summand    ::= signed { ("*" | "/") signed }                          *)
(*   signed     ::= factor | "-" factor                                    *)
(*   factor     ::= operand { "^" factor }                                 *)
(*   operand    ::= function "(" expression ")"                            *)
(*                | "atan2" "(" expression "," expression ")"              *)
(*                | scalar | "(" expression ")"                            *)
(*                                                                         *)
(* Parse(w) is <<>> if w is not in the language, and else <<t>> with the   *)
(* (unsimplified) expression t that w denotes.                             *)
(***************************************************************************)
EXTENDS Expr, Lex

FunctionTokens == {"sin", "cos", "tan", "asin", "acos", "atan", "log", "sqrt"}
Sym(s) == [k |-> "sym", s |-> s, p |-> 0]
Num2(n, d) == [k |-> "num", g |-> (IF n = 0 THEN 0 ELSE 1), n |-> <<n>>, d |-> <<d>>]

\* The scalar a token stands for, or <<>>
ScalarOf(t) == IF IsNumeral(t) THEN <<IntOf(t)>>
               ELSE IF IsDecimal(t) THEN <<DecimalOf(t)>>
               ELSE IF SmallText(t) = "pi" THEN <<[k |-> "cst", s |-> "pi"]>>
               ELSE IF SmallText(t) = "euler" THEN <<[k |-> "cst", s |-> "e"]>>
               ELSE LET n == Split(t) IN IF n = <<>> THEN <<>> ELSE <<Sym(n[1] \o (IF n[2] = "" THEN "" ELSE IF Len(n[2]) = 1 THEN "_" \o n[2] ELSE ("_{" \o n[2]) \o "}"))>>
\* Frequent tokens
Known == {"a", "b", "c", "x", "0", "1", "2", "3", "pi", "(", ")", "+", "-", "*", "/", "^", ","}
KnownScalars == [t \in Known |-> ScalarOf(t)]
Scalar(t) == IF t \in Known THEN KnownScalars[t] ELSE ScalarOf(t)
FunctionName(t) == IF t \in Known THEN "" ELSE IF t \in FunctionTokens THEN t ELSE LET s == SmallText(t) IN IF s \in FunctionTokens \union {"atan2"} THEN s ELSE ""

Add2(l, r) == [k |-> "sum", o |-> <<l, r>>]
Mul2(l, r) == [k |-> "prd", o |-> <<l, r>>]
Pow2(l, r) == [k |-> "pow", o |-> <<l, r>>]
Neg1(x) == Mul2(NumOf(-1), x)
Inv1(x) == Pow2(x, NumOf(-1))
Fct1(f, x) == IF f = "sqrt" THEN Pow2(x, Num2(1, 2)) ELSE [k |-> "fct", s |-> f, o |-> <<x>>]

\* Each nonterminal maps a position to <<>> (no match) or <<expression, next position>>
At(w, i, tok) == i <= Len(w) /\ w[i] = tok

RECURSIVE PExpr(_, _)
RECURSIVE PExprRest(_, _, _)
RECURSIVE PSummand(_, _)
RECURSIVE PSummandRest(_, _, _)
RECURSIVE PSigned(_, _)
RECURSIVE PFactor(_, _)
RECURSIVE PFactorRest(_, _, _)
RECURSIVE POperand(_, _)

POperand(w, i) ==
    IF i > Len(w) THEN <<>>
    ELSE IF At(w, i + 1, "(") /\ FunctionName(w[i]) \in FunctionTokens
         THEN LET x == PExpr(w, i + 2)
              IN  IF x # <<>> /\ At(w, x[2], ")") THEN <<Fct1(FunctionName(w[i]), x[1]), x[2] + 1>> ELSE <<>>
    ELSE IF At(w, i + 1, "(") /\ FunctionName(w[i]) = "atan2"
         THEN LET y == PExpr(w, i + 2)
              IN  IF y = <<>> \/ ~At(w, y[2], ",") THEN <<>>
                  ELSE LET x == PExpr(w, y[2] + 1)
                       IN  IF x # <<>> /\ At(w, x[2], ")")
                           THEN <<[k |-> "fct", s |-> "atan2", o |-> <<y[1], x[1]>>], x[2] + 1>> ELSE <<>>
    ELSE IF Scalar(w[i]) # <<>> THEN <<Scalar(w[i])[1], i + 1>>
    ELSE IF w[i] = "("
         THEN LET x == PExpr(w, i + 1) IN IF x # <<>> /\ At(w, x[2], ")") THEN <<x[1], x[2] + 1>> ELSE <<>>
    ELSE <<>>

PFactorRest(w, i, l) ==
    IF ~At(w, i, "^") THEN <<l, i>>
    ELSE LET r == PFactor(w, i + 1) IN IF r = <<>> THEN <<l, i>> ELSE PFactorRest(w, r[2], Pow2(l, r[1]))
PFactor(w, i) == LET x == POperand(w, i) IN IF x = <<>> THEN <<>> ELSE PFactorRest(w, x[2], x[1])

PSigned(w, i) ==
    IF At(w, i, "-") THEN LET x == PFactor(w, i + 1) IN IF x = <<>> THEN <<>> ELSE <<Neg1(x[1]), x[2]>>
    ELSE PFactor(w, i)

PSummandRest(w, i, l) ==
    IF i <= Len(w) /\ w[i] \in {"*", "/"}
    THEN LET r == PSigned(w, i + 1)
         IN  IF r = <<>> THEN <<l, i>> ELSE PSummandRest(w, r[2], Mul2(l, IF w[i] = "*" THEN r[1] ELSE Inv1(r[1])))
    ELSE <<l, i>>
PSummand(w, i) == LET x == PSigned(w, i) IN IF x = <<>> THEN <<>> ELSE PSummandRest(w, x[2], x[1])

PExprRest(w, i, l) ==
    IF i <= Len(w) /\ w[i] \in {"+", "-"}
    THEN LET r == PSummand(w, i + 1)
         IN  IF r = <<>> THEN <<l, i>> ELSE PExprRest(w, r[2], Add2(l, IF w[i] = "+" THEN r[1] ELSE Neg1(r[1])))
    ELSE <<l, i>>
PExpr(w, i) ==
    LET j == IF At(w, i, "+") THEN i + 1 ELSE i
        x == PSummand(w, j)
    IN  IF x = <<>> THEN <<>> ELSE PExprRest(w, x[2], x[1])

Parse(w) == LET x == PExpr(w, 1) IN IF x # <<>> /\ x[2] = Len(w) + 1 THEN <<x[1]>> ELSE <<>>
=============================================================================
