------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* A random client of the library, as a state machine: each session starts *)
(* with expressions from a random grammar and goes on with random calls on *)
(* what it holds.  All choices are pseudo random functions of the seed, so *)
(* that the behaviours are reproducible.  Profiles differ in the grammar   *)
(* and in the calls.  Sessions have the form described in Gen.             *)
(***************************************************************************)
EXTENDS Terms, Json, IOUtils, Bitwise

Profile == IOEnv.PROFILE
Count == atoi(IOEnv.COUNT)
Seed == atoi(IOEnv.SEED)

-----------------------------------------------------------------------------
(* Pseudo random choices: a key is a number below 2^31 - 1; Sub(k, i) is an independent key, Rnd(k, n) is in 1..n *)

M31 == 2147483647
Lehmer(k) == LET v == (48271 * (k % 44488)) - (3399 * (k \div 44488)) IN IF v > 0 THEN v ELSE v + M31
Mix(k) == LET u == Lehmer(k)
              w == (u ^^ (u \div 32768)) % M31
              z == Lehmer(IF w = 0 THEN 1 ELSE w)
              y1 == (z ^^ (z \div 4096)) % M31
          IN  IF y1 = 0 THEN 1 ELSE y1
Sub(k, i) == Mix(((k ^^ (i * 40503)) % (M31 - 1)) + 1)
Rnd(k, n) == ((Mix(k) \div 64) % n) + 1
OneOf(k, q) == q[Rnd(k, Len(q))]
Chance(k, num, den) == Rnd(k, den) <= num

RECURSIVE Rep(_, _)
Rep(n, q) == IF n = 0 THEN <<>> ELSE q \o Rep(n - 1, q)
Draw(n, f(_)) == [i \in 1..n |-> f(i)]

VARIABLES id, left, prog, sizes
all == <<id, left, prog, sizes>>

KeyOf(n) == Sub(Sub((Seed % 1000000) + 1, n), 77)
\* a choice that all expressions of a session have in common
Common(i) == Sub(KeyOf(id), 9000 + i)

-----------------------------------------------------------------------------
(* Random expressions *)

Ints == << I(0), I(1), I(-1), I(2), I(-2), I(3), I(-3), I(4), I(5), I(-6), I(7), I(8), I(9), I(10), I(12), I(-15), I(18), I(27), I(36), I(100) >>
Fracs == << half, Q(-1, 2), Q(1, 3), Q(-2, 3), Q(3, 4), Q(5, 6), Q(-7, 5), Q(9, 4), Q(8, 27), Q(-3, 8), Q(25, 12), Q(1, 10) >>
\* few symbols, so that they meet
Symb == OneOf(Common(1), << <<a, b, c, x, y>>, <<a, b>>, <<a, x>>, <<a>>, <<x, y>>, <<a, b, x>>, <<x>>, <<a, b, c>> >>)
Consts == << Pi, Euler >>
IntExps == << I(2), I(-1), I(3), I(-2), I(4), I(-3), I(5), I(2), I(6), I(-4) >>
FracExps == << half, Q(-1, 2), Q(1, 3), Q(2, 3), Q(3, 2), Q(-1, 3), Q(-3, 2), Q(1, 4), Q(5, 2), Q(4, 3), Q(-2, 3), Q(3, 4), Q(1, 6), Q(-5, 3) >>
TrigFs == << "sin", "cos", "tan" >>
InvFs == << "asin", "acos", "atan" >>
AllFs == << "sin", "cos", "tan", "asin", "acos", "atan", "log" >>
PiParts(k) == Mu(Q(Rnd(Sub(k, 1), 25) - 13, OneOf(Sub(k, 2), <<1, 2, 3, 4, 5, 6, 8, 10, 12>>)), Pi)
Decimals == << "0.5", "-1.25", "0.1", "3.14159", "1e-3", "-2.5e4", "123.456", "0.333333333333", "7.0", "-0.75" >>

\* Kin: terms that share one or two bases throughout the session, so that they contract with each other
KinBases == << a, x, I(2), I(6), Q(2, 3), Pi, Ad(a, b), Su(a, b), Ad(I(1), x), Ad(x, y), Fn("log", x), Fn("log", a), Sq(I(2)), Euler, Po(a, b), I(1009), I(12), Fn("asin", a), <<"atan2", a, b>>, Mu(a, b), Ad(I(1), Sq(I(2))), Fn("atan", b), Q(1, 2), I(10), Po(x, b) >>
KinExps == << I(1), I(1), I(2), I(-1), I(3), I(-2), I(4), half, Q(-1, 2), Q(3, 2), I(-3), Q(2, 3), Q(1, 3), Q(5, 2), I(-4), I(5), b, Mu(I(2), b), Ne(b), Q(-3, 2), Q(1, 4), I(1), I(2), Q(5, 6) >>
KinCoeffs == << I(1), I(1), I(-1), I(2), half, I(-3), Sq(I(2)), Pi, b, I(1), I(1), Q(-2, 3), I(5), x >>
TrigArgs == << a, b, x, Ad(a, b), I(1), PiParts(77), Mu(I(2), a), Mu(a, b), Sq(I(2)), Po(a, I(2)) >>
\* now and then an argument that only looks alike
Alike(k, t) == IF ~Chance(Sub(k, 1), 1, 5) THEN t ELSE OneOf(Sub(k, 2), << Mu(I(2), t), Ne(t), Ad(t, I(1)), Mu(half, t), Mu(t, b) >>)
KinBase(k, i) == IF Chance(Common(2 + i), 1, 3) THEN <<OneOf(Sub(k, 6), TrigFs), Alike(Sub(k, 11), OneOf(Common(4 + i), TrigArgs))>> ELSE OneOf(Common(6 + i), KinBases)
KinFactor(k, i) == IF Chance(Sub(k, 2), 1, 6) THEN KinBase(Sub(k, 3), i) ELSE Po(KinBase(Sub(k, 3), i), OneOf(Sub(k, 4), IF Chance(Common(8), 1, 2) THEN SubSeq(KinExps, 1, 7) ELSE KinExps))
KinTerm(k) == CASE Rnd(Sub(k, 5), 10) <= 3 -> KinFactor(Sub(k, 7), 1)
                [] Rnd(Sub(k, 5), 10) \in {4, 5, 6} -> Mu(OneOf(Sub(k, 8), KinCoeffs), KinFactor(Sub(k, 7), 1))
                [] Rnd(Sub(k, 5), 10) \in {7, 8} -> Mu(KinFactor(Sub(k, 7), 1), KinFactor(Sub(k, 9), 2))
                [] OTHER -> KinFactor(Sub(k, 7), 2)

\* grammar: leaf kinds and productions are given as sequences of names, the number of their occurrences being weights
Leaf(k, kind) ==
    CASE kind = "int" -> OneOf(k, Ints)
      [] kind = "frac" -> OneOf(k, Fracs)
      [] kind = "sym" -> OneOf(k, Symb)
      [] kind = "abc" -> OneOf(k, <<a, b, c>>)
      [] kind = "ab" -> OneOf(k, <<a, b>>)
      [] kind = "xy" -> OneOf(k, <<x, y>>)
      [] kind = "twin" -> OneOf(k, <<a, Pos("a"), b, Pos("b"), S("a_1"), S("a_2")>>)
      [] kind = "cst" -> OneOf(k, Consts)
      [] kind = "pi" -> Pi
      [] kind = "pip" -> PiParts(k)
      [] kind = "dbl" -> Dbl(OneOf(k, Decimals))
      [] kind = "root" -> Po(OneOf(Sub(k, 1), <<I(2), I(3), I(5), I(6), I(7), I(10), I(12), half, Q(3, 2), I(1009), I(2018)>>), OneOf(Sub(k, 2), FracExps))
      [] kind = "big" -> OneOf(k, <<Big("2147483648"), Big("9007199254740993"), Big("18446744073709551616"), Big("123456789012345678901"), Po(I(3), I(45)), Ne(Po(I(2), I(65))), Di(I(1), Big("99999999999999999999")), I(1000003), I(65537)>>)
      [] kind = "med" -> Q(Rnd(Sub(k, 1), 1999) - 1000, IF Chance(Sub(k, 2), 1, 2) THEN 1 ELSE Rnd(Sub(k, 3), 60))
      \* numbers that agree to the accuracy of a double
      [] kind = "near" -> LET n == Ad(OneOf(Common(16), <<Big("100000000000000000000"), Po(I(2), I(64)), Big("9007199254740992"), Big("123456789012345678901234567890"), Ne(Po(I(3), I(50)))>>), I(Rnd(Sub(k, 1), 4) - 2))
                              m == OneOf(Sub(k, 2), <<I(1), I(1), I(3), I(3), OneOf(Common(17), <<I(7), Big("99999999999999999999"), Po(I(2), I(70)), I(1000003)>>)>>)
                          IN  IF Chance(Sub(k, 3), 1, 5) THEN Di(m, n) ELSE Di(n, m)
      [] kind = "und" -> Und
      [] kind = "named" -> LET n == OneOf(Sub(k, 2), <<"alpha", "beta_1", "beta_2", "Omega_{12}", "x_b", "pivot", "phi", "my_{A9}">>) IN IF Rnd(Sub(k, 1), 2) = 1 THEN S(n) ELSE Pos(n)
      [] kind = "kin" -> KinTerm(k)

\* exponents: nothing that grows out of hand
Expo(k, leaves) == LET l == Leaf(Sub(k, 1), OneOf(Sub(k, 2), leaves))
                   IN  CASE Rnd(Sub(k, 3), 5) \in {1, 2} -> l
                         [] Rnd(Sub(k, 3), 5) = 3 -> Mu(OneOf(Sub(k, 4), Symb), l)
                         [] Rnd(Sub(k, 3), 5) = 4 -> Ad(OneOf(Sub(k, 4), Symb), l)
                         [] OTHER -> OneOf(Sub(k, 5), FracExps)
RECURSIVE Ex(_, _, _, _)
Ex(k, dep, leaves, prods) ==
    IF dep = 0 \/ Chance(Sub(k, 1), 1, 6) THEN Leaf(Sub(k, 2), OneOf(Sub(k, 3), leaves))
    ELSE LET p == OneOf(Sub(k, 4), prods)
             e(i) == Ex(Sub(k, 10 + i), dep - 1, leaves, prods)
         IN  CASE p \in {"add", "sub", "mul", "div", "atan2"} -> <<p, e(1), e(2)>>
               [] p = "pow" -> Po(e(1), Expo(Sub(k, 8), leaves))
               [] p = "add3" -> Ad(Ad(e(1), e(2)), e(3))
               [] p = "mul3" -> Mu(Mu(e(1), e(2)), e(3))
               [] p = "lin" -> Ad(Mu(Leaf(Sub(k, 5), OneOf(Sub(k, 7), <<"int", "frac">>)), e(1)), e(2))
               [] p = "ipow" -> Po(e(1), OneOf(Sub(k, 5), IntExps))
               [] p = "sq" -> Po(e(1), I(2))
               [] p = "qpow" -> Po(e(1), OneOf(Sub(k, 5), FracExps))
               [] p = "neg" -> Ne(e(1))
               [] p = "sqrt" -> Sq(e(1))
               [] p = "expo" -> Po(OneOf(Sub(k, 5), <<I(2), I(3), half, Euler, Pi, x, Q(2, 3)>>), Expo(Sub(k, 8), leaves))
               [] p = "trig" -> <<OneOf(Sub(k, 5), TrigFs), e(1)>>
               [] p = "inv" -> <<OneOf(Sub(k, 5), InvFs), e(1)>>
               [] p = "comp" -> <<OneOf(Sub(k, 5), AllFs), <<OneOf(Sub(k, 6), AllFs), e(1)>> >>
               [] p = "trigpow" -> Po(<<OneOf(Sub(k, 5), TrigFs), Leaf(Sub(k, 6), "ab")>>, OneOf(Sub(k, 7), IntExps \o << half, Q(-1, 2), Q(3, 2)>>))
               [] OTHER -> <<p, e(1)>>

\* polynomials: sums of monomials; up to n terms, exponents up to m
Mono(k, vars, m) ==
    LET f(i) == Po(OneOf(Sub(k, 20 + i), vars), I(Rnd(Sub(k, 30 + i), m)))
        cf == IF Chance(Sub(k, 1), 1, 4) THEN OneOf(Sub(k, 2), Fracs) ELSE I(OneOf(Sub(k, 3), <<1, -1, 2, 3, -4, 5, 6, -2, 7, 10, 12, 1, 1>>))
    IN  CASE Rnd(Sub(k, 4), 6) = 1 -> cf
          [] Rnd(Sub(k, 4), 6) \in {2, 3} -> Mu(cf, f(1))
          [] Rnd(Sub(k, 4), 6) \in {4, 5} -> Mu(Mu(cf, f(1)), f(2))
          [] OTHER -> Mu(Mu(Mu(cf, f(1)), f(2)), f(3))
RECURSIVE SumUp(_, _)
SumUp(q, i) == IF i = 1 THEN q[1] ELSE Ad(SumUp(q, i - 1), q[i])
Poly(k, vars, n, m) == LET t == Rnd(Sub(k, 1), n) IN SumUp(Draw(t, LAMBDA i : Mono(Sub(k, 40 + i), vars, m)), t)

-----------------------------------------------------------------------------
(* Profiles: grammar, number of expressions to begin with, number of calls, kinds of calls *)

Bin == << "add", "sub", "mul", "div" >>
Grammar(leaves, prods, depth) == [leaves |-> leaves, prods |-> prods, depth |-> depth]
Prof(g, nload, ncalls, calls) == [g |-> g, nload |-> nload, ncalls |-> ncalls, calls |-> calls]

Arithmetic == Grammar(<<"int", "frac", "sym", "sym", "sym", "root", "cst">>, <<"add", "sub", "mul", "mul", "div", "ipow", "sqrt", "lin", "neg", "qpow", "trig">>, 3)
Trigo == Grammar(<<"int", "frac", "ab", "ab", "pip">>, <<"add", "sub", "mul", "div", "trigpow", "trigpow", "trigpow", "trigpow", "mul", "lin", "trig", "inv", "comp">>, 3)
Power == Grammar(<<"int", "frac", "sym", "sym", "root">>, <<"ipow", "qpow", "qpow", "mul", "mul", "div", "sqrt", "pow", "expo", "add", "neg", "lin">>, 3)
NumberG == Grammar(<<"int", "frac", "med", "big", "near", "near">>, <<"add", "sub", "mul", "div", "ipow", "neg">>, 3)
NumRoots == Grammar(<<"int", "frac", "root", "root", "med">>, <<"add", "mul", "mul", "div", "ipow", "qpow", "sqrt", "neg">>, 2)
Numeric == Grammar(<<"int", "frac", "root", "cst", "pip", "med">>, <<"add", "sub", "mul", "div", "ipow", "qpow", "trig", "inv", "log", "comp", "sqrt", "expo">>, 3)
RationalG == Grammar(<<"int", "frac", "abc", "abc", "abc">>, <<"add", "sub", "mul", "div", "div", "ipow", "lin", "sq">>, 3)
Mixed == Grammar(<<"int", "frac", "sym", "sym", "root", "pi">>, <<"add", "sub", "mul", "div", "ipow", "qpow", "sqrt", "trigpow", "log", "trig", "lin", "expo", "inv", "atan2">>, 3)
PosSigns == Grammar(<<"int", "frac", "xy", "xy", "xy", "sym", "root", "cst">>, <<"add", "mul", "mul", "div", "ipow", "qpow", "neg", "sub", "log", "inv", "expo", "sqrt", "trig", "sq", "add3">>, 3)
Plain == Grammar(<<"int", "frac", "abc", "abc", "root", "pi">>, <<"add", "sub", "mul", "div", "ipow", "qpow", "sqrt", "trigpow", "log", "trig", "lin", "expo", "inv", "neg", "atan2">>, 3)
StreamG == Grammar(<<"int", "frac", "sym", "sym", "root", "cst", "named", "named">>, Plain.prods, 3)
DiffG == Grammar(<<"int", "frac", "ab", "ab", "ab", "xy", "pi">>, <<"add", "sub", "mul", "div", "ipow", "qpow", "sqrt", "trigpow", "log", "trig", "inv", "lin", "expo", "pow">>, 3)
FctG == Grammar(<<"int", "frac", "sym", "sym", "pip", "root">>, <<"add", "sub", "mul", "neg", "comp", "comp", "trig", "inv", "log", "expo", "lin", "ipow">>, 2)
TwinG == Grammar(<<"int", "frac", "twin", "twin", "twin", "sym", "root", "pi">>, <<"add", "sub", "mul", "div", "ipow", "sqrt", "trig", "lin", "expo", "log">>, 2)
UndG == Grammar(<<"und", "int", "frac", "sym", "sym", "root">>, <<"add", "sub", "mul", "div", "ipow", "qpow", "trig", "log", "inv", "pow">>, 2)
DblG == Grammar(<<"dbl", "dbl", "int", "frac", "sym", "root", "pi">>, <<"add", "sub", "mul", "div", "ipow", "qpow", "trig", "log", "lin">>, 2)

Kin == Grammar(<<"kin", "kin", "kin", "kin", "kin", "kin", "int", "frac">>, <<"add", "sub", "mul", "mul", "div", "add", "lin", "ipow", "qpow", "neg">>, 2)
KinPlain == Grammar(<<"kin", "kin", "kin", "kin", "int", "frac">>, <<"add", "sub", "mul", "div", "ipow", "neg">>, 1)

P ==
    CASE Profile = "arith" -> Prof(Arithmetic, 6, 10, Bin \o Bin \o << "iadd", "imul", "isub", "idiv", "neg", "powi" >>)
      [] Profile = "trigarith" -> Prof(Trigo, 6, 10, Bin \o << "add", "mul", "sub", "powi", "powq" >>)
      [] Profile = "rootarith" -> Prof(NumRoots, 7, 10, Bin \o << "mul", "div", "powi", "powq", "sqrt" >>)
      [] Profile = "kin" -> Prof(KinPlain, 8, 12, Bin \o << "add", "mul", "sub", "iadd", "imul" >>)
      [] Profile = "kinpow" -> Prof(Kin, 6, 10, << "powi", "powq", "powx", "mul", "div", "sqrt", "powq" >>)
      [] Profile = "kinexpand" -> Prof(Kin, 6, 10, << "expand", "expand", "mul", "add", "powi", "sub" >>)
      [] Profile = "kinsimp" -> Prof(KinPlain, 5, 9, << "simplify", "normal", "frac", "add", "div", "sub", "simplify", "normal", "frac", "simpcx" >>)
      [] Profile = "kineq" -> Prof(KinPlain, 8, 14, << "eq", "eq", "eq", "add", "mul", "sub", "div" >>)
      [] Profile = "kinsubst" -> Prof(Kin, 6, 10, << "subst", "subst", "subst", "substx", "substx", "has", "add" >>)
      [] Profile = "kindiff" -> Prof(Kin, 6, 10, << "diff", "diff", "diff", "mul", "div" >>)
      [] Profile = "kinsign" -> Prof(Kin, 7, 14, << "sign", "sign", "sign", "add", "mul", "powi", "neg", "powq" >>)
      [] Profile = "kinquery" -> Prof(KinPlain, 6, 14, << "has", "has", "query", "query", "op", "complexity", "add", "mul", "powi" >>)
      [] Profile = "kinprint" -> Prof(KinPlain, 6, 12, << "roundtrip", "roundtrip", "roundtrip", "neg", "div", "powi", "powq", "sub" >>)
      [] Profile = "kinfct" -> Prof(KinPlain, 6, 14, << "sin", "cos", "tan", "asin", "acos", "atan", "log", "atan2", "neg", "mul", "powi", "log" >>)
      [] Profile = "dblarith" -> Prof(DblG, 5, 8, Bin \o << "powi", "todouble", "sin", "log" >>)
      [] Profile = "power" -> Prof(Power, 5, 10, << "powi", "powq", "powq", "powx", "powx", "sqrt", "mul", "div", "powi" >>)
      [] Profile = "number" -> Prof(NumberG, 5, 10, Bin \o << "powi", "eq", "ncmp", "ncmp", "sign", "iadd", "imul", "neg" >>)
      [] Profile = "eq" -> Prof(TwinG, 8, 12, << "eq", "eq", "eq", "add", "mul", "sub", "neg", "powi" >>)
      [] Profile = "expand" -> Prof(Arithmetic, 5, 10, << "expand", "expand", "mul", "add", "powi", "expand", "sub" >>)
      [] Profile = "rational" -> Prof(RationalG, 4, 8, << "simplify", "normal", "frac", "add", "div", "sub", "simplify", "normal", "frac", "simpcx" >>)
      [] Profile = "mixed" -> Prof(Mixed, 4, 8, << "simplify", "normal", "frac", "add", "div", "sub", "mul", "simplify", "normal", "frac", "simpcx" >>)
      [] Profile = "subst" -> Prof(Mixed, 6, 10, << "subst", "subst", "subst", "subst", "has", "add", "substx" >>)
      [] Profile = "diff" -> Prof(DiffG, 6, 10, << "diff", "diff", "diff", "mul", "div" >>)
      [] Profile = "fct" -> Prof(FctG, 6, 14, << "sin", "cos", "tan", "asin", "acos", "atan", "log", "atan2", "neg", "add", "sub", "powi" >>)
      [] Profile = "sign" -> Prof(PosSigns, 8, 14, << "sign", "sign", "sign", "sign", "add", "mul", "powi", "neg", "powq" >>)
      [] Profile = "signfct" -> Prof(PosSigns, 6, 14, << "sign", "sign", "sign", "log", "atan", "cos", "sqrt", "add", "sub", "powx" >>)
      [] Profile = "conv" -> Prof(Numeric, 6, 12, << "todouble", "todouble", "toint", "add", "mul", "div", "powi", "atan2" >>)
      [] Profile = "print" -> Prof(Plain, 6, 10, << "roundtrip", "roundtrip", "roundtrip", "neg", "div", "powi", "powq", "powx", "sub" >>)
      [] Profile = "stream" -> Prof(StreamG, 6, 14, << "stream", "stream", "stream", "neg", "div", "powi", "powq", "sub", "mul" >>)
      [] Profile = "kinstream" -> Prof(Kin, 6, 14, << "stream", "stream", "stream", "neg", "div", "powi", "powq", "sub", "mul" >>)
      [] Profile = "undef" -> Prof(UndG, 6, 10, Bin \o << "powx", "sin", "log", "sqrt", "simplify", "expand", "eq", "sign", "atan2", "diff", "subst", "asin" >>)
      [] Profile = "domain" -> Prof(Numeric, 6, 14, << "log", "asin", "acos", "sqrt", "tan", "powq", "powi", "div", "sub", "powx", "atan2" >>)
      [] Profile = "query" -> Prof(Mixed, 5, 12, << "has", "has", "query", "query", "op", "complexity", "add", "mul", "powi", "op" >>)
      [] Profile = "twinquery" -> Prof(TwinG, 5, 12, << "has", "has", "query", "query", "op", "complexity", "add", "mul", "powi", "op" >>)
      [] OTHER -> Prof(Arithmetic, 0, 0, <<"add">>)

-----------------------------------------------------------------------------
(* Sessions of a fixed form with random contents *)

E(k, g) == Ex(k, g.depth, g.leaves, g.prods)
Shallow(k, g) == Ex(k, 1, g.leaves, g.prods)

\* random permutation of 1..n
RECURSIVE Shuffle(_, _)
Shuffle(k, q) == IF q = <<>> THEN <<>>
                 ELSE LET i == Rnd(Sub(k, 3), Len(q))
                      IN  <<q[i]>> \o Shuffle(Sub(k, 5), SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
RECURSIVE FoldCalls(_, _, _, _)
\* op over the registers q, the next register to be made being n: from the left, the right, or in pairs
FoldCalls(k, op, q, n) ==
    IF Len(q) < 2 THEN <<>>
    ELSE LET j == Rnd(Sub(k, 1), Len(q) - 1)
             rest == SubSeq(q, 1, j - 1) \o <<n>> \o SubSeq(q, j + 2, Len(q))
         IN  << <<op, q[j], q[j + 1]>> >> \o FoldCalls(Sub(k, 2), op, rest, n + 1)
Canon(k) ==
    LET g == OneOf(Sub(k, 1), <<Arithmetic, TwinG, Power, Mixed, NumRoots, RationalG, KinPlain, KinPlain, KinPlain>>)
        m == 2 + Rnd(Sub(k, 2), 3)
        ts == Draw(m, LAMBDA i : IF Chance(Sub(k, 60 + i), 2, 3) THEN Shallow(Sub(k, 80 + i), g) ELSE E(Sub(k, 80 + i), [g EXCEPT !.depth = 2]))
        ids == [i \in 1..m |-> i]
        fold(r, op, n) == FoldCalls(Sub(k, 100 + r), op, Shuffle(Sub(k, 120 + r), ids), n)
        w == m - 1
    IN  [load |-> ts, do |-> fold(1, "add", m + 1) \o fold(2, "add", m + 1 + w) \o fold(3, "add", m + 1 + 2 * w)
                             \o fold(4, "mul", m + 1 + 3 * w) \o fold(5, "mul", m + 1 + 4 * w) \o fold(6, "mul", m + 1 + 5 * w)
                             \o << <<"rebuild", m + w, Rnd(Sub(k, 3), 50), Rnd(Sub(k, 4), 50)>>, <<"rebuild", m + 4 * w, Rnd(Sub(k, 5), 50), Rnd(Sub(k, 6), 50)>>, <<"eq", m + w, m + 2 * w>>, <<"eq", m + 4 * w, m + 5 * w>> >>]

\* rational identities
Ident(k) ==
    LET t(i) == IF Chance(Sub(k, i), 1, 3) THEN Poly(Sub(k, 10 + i), <<a, b, c>>, 3, 2) ELSE Ex(Sub(k, 10 + i), 2, RationalG.leaves, RationalG.prods)
    IN  [load |-> <<t(1), t(2), t(3)>>,
         do |-> CASE Rnd(Sub(k, 4), 4) = 1 -> << <<"add", 1, 2>>, <<"mul", 4, 3>>, <<"mul", 1, 3>>, <<"mul", 2, 3>>, <<"sub", 5, 6>>, <<"sub", 8, 7>>, <<"expand", 9>>, <<"simplify", 9>>, <<"normal", 9>>, <<"frac", 5>>, <<"simpcx", 5>> >>
                  [] Rnd(Sub(k, 4), 4) = 2 -> << <<"div", 1, 2>>, <<"mul", 1, 3>>, <<"mul", 2, 3>>, <<"div", 5, 6>>, <<"sub", 4, 7>>, <<"simplify", 8>>, <<"normal", 8>>, <<"normal", 7>>, <<"frac", 7>>, <<"frac", 4>>, <<"expand", 5>> >>
                  [] Rnd(Sub(k, 4), 4) = 3 -> << <<"add", 1, 2>>, <<"sub", 1, 2>>, <<"mul", 4, 5>>, <<"mul", 1, 1>>, <<"mul", 2, 2>>, <<"sub", 7, 8>>, <<"sub", 6, 9>>, <<"simplify", 10>>, <<"normal", 10>>, <<"expand", 10>>, <<"div", 9, 4>>, <<"simplify", 14>>, <<"frac", 14>>, <<"sub", 14, 5>>, <<"simplify", 18>> >>
                  [] OTHER -> << <<"div", 1, 3>>, <<"div", 2, 3>>, <<"add", 4, 5>>, <<"add", 1, 2>>, <<"div", 7, 3>>, <<"sub", 6, 8>>, <<"simplify", 9>>, <<"normal", 9>>, <<"frac", 6>>, <<"simplify", 6>>, <<"expand", 6>> >>]

\* polynomials with a common factor, expanded
GcdS(k) ==
    LET v == OneOf(Sub(k, 1), << <<a>>, <<a, b>>, <<a, b, c>>, <<a, x>> >>)
        p(i) == Poly(Sub(k, 10 + i), v, 3, 2)
        two == IF Chance(Sub(k, 2), 1, 2) THEN <<5, 6>> ELSE <<6, 5>>
    IN  [load |-> <<p(1), p(2), p(3), p(4), v[1], IF Len(v) = 1 THEN b ELSE v[2]>>,
         do |-> << <<"mul", 1, 3>>, <<"expand", 7>>, <<"mul", 2, 3>>, <<"expand", 9>>, <<"gcd", 8, 10>>, <<"divide", 8, 3>>, <<"add", 8, 4>>, <<"expand", 15>>, <<"divide", 16, 3>>, <<"gcd", 16, 10>>, <<"gcd", 1, 2>>, <<"divide", 8, 10>>,
                   <<"gcd", 1, 8>>, <<"expand", 3>>, <<"gcd", 8, 27>>, <<"expand", 1>>, <<"divide", 8, 30>>, <<"gcd", 30, 10>>,
                   <<"ldivide", 8, 27, two[1], two[2]>>, <<"ldivide", 16, 27, two[1], two[2]>>, <<"ldivide", 8, 27, two[2], two[1]>>, <<"ldivide", 16, 27, two[2], two[1]>>, <<"ldivide", 8, 10, two[1], two[2]>> >>]

\* polynomials as ones in a symbol
PolyS(k) ==
    LET v == OneOf(Sub(k, 1), << <<a>>, <<a, b>>, <<a, b, c>>, <<a, x>> >>)
        p(i) == Poly(Sub(k, 10 + i), v, 4, 3)
        s(i) == 4 + Rnd(Sub(k, 20 + i), 3)
    IN  [load |-> <<p(1), p(2), p(3), p(4), a, b, x>>,
         do |-> << <<"expand", 1>>, <<"expand", 2>>, <<"mul", 1, 3>>, <<"expand", 10>>, <<"pdivide", 8, 9, s(1)>>, <<"pdivide", 11, 8, s(2)>>, <<"pdivide", 11, 9, s(3)>>, <<"add", 11, 4>>, <<"expand", 18>>, <<"pdivide", 19, 8, s(2)>>, <<"pdivide", 8, 11, s(1)>>,
                   <<"poly", 8, s(1)>>, <<"poly", 11, 5>>, <<"poly", 11, 6>>, <<"poly", 19, s(4)>>, <<"poly", 9, 7>> >>]

\* matrices: sparse, rational entries
Entry(k) == CASE Rnd(Sub(k, 1), 10) \in {1, 2, 3} -> I(0)
              [] Rnd(Sub(k, 1), 10) \in {4, 5} -> I(OneOf(Sub(k, 2), <<1, -1, 2, 3, -5, 4>>))
              [] Rnd(Sub(k, 1), 10) \in {6, 7} -> OneOf(Sub(k, 3), <<a, b>>)
              [] Rnd(Sub(k, 1), 10) = 8 -> OneOf(Sub(k, 4), Fracs)
              [] Rnd(Sub(k, 1), 10) = 9 -> OneOf(Sub(k, 5), <<Ad(a, I(1)), Su(a, b), Mu(I(2), a), Su(Su(Po(Ad(a, I(1)), I(2)), Po(a, I(2))), Ad(Mu(I(2), a), I(1)))>>)
              [] OTHER -> OneOf(Sub(k, 6), <<I(1), I(-1), a>>)
Seqn(n, from) == [i \in 1..n |-> from + i - 1]
Lin(k, numeric) ==
    LET n == 1 + Rnd(Sub(k, 1), 3)
        v(i) == IF numeric THEN (IF Chance(Sub(k, 300 + i), 1, 4) THEN I(0) ELSE OneOf(Sub(k, 200 + i), Ints \o Fracs)) ELSE Entry(Sub(k, 200 + i))
        mask == IF n >= 3 /\ Chance(Sub(k, 2), 1, 2) THEN Rnd(Sub(k, 3), (2^n) - 1) - 1 ELSE -1
        m == Seqn(n * n, 1)
        r == Seqn(n, n * n + 1)
        \* sometimes the last row (or column) is made dependent on the others
        dep == Chance(Sub(k, 4), 1, 4)
        row == Chance(Sub(k, 5), 1, 2)
        f == OneOf(Sub(k, 6), <<I(1), I(-2), a, half>>)
        w(i, j) == IF dep /\ row /\ i = n THEN Ad(v(j), Mu(f, v((n * (n - 2)) + j)))
                   ELSE IF dep /\ ~row /\ j = 1 THEN Su(v((n * (i - 1)) + 2), Mu(f, v((n * (i - 1)) + n)))
                   ELSE v((n * (i - 1)) + j)
    IN  [load |-> Draw(n * n, LAMBDA i : w(((i - 1) \div n) + 1, ((i - 1) % n) + 1)) \o Draw(n, LAMBDA i : Entry(Sub(k, 400 + i))),
         do |-> << <<"det", n, 0, Rnd(Sub(k, 7), 2) - 1, mask>> \o m, <<"det", n, 1, Rnd(Sub(k, 8), 2) - 1, mask>> \o m,
                   <<"solve", n, 0, Rnd(Sub(k, 9), 2) - 1, mask>> \o m \o r, <<"solve", n, 1, Rnd(Sub(k, 10), 2) - 1, mask>> \o m \o r,
                   <<"inv", n, 0, Rnd(Sub(k, 11), 2) - 1, mask>> \o m, <<"inv", n, 1, Rnd(Sub(k, 12), 2) - 1, mask>> \o m >>]

\* words of the expression language, by derivation; some with a mutation
Scalars == << "a", "b", "x", "abc", "y_1", "z_{12}", "2", "3", "0", "1", "17", "1.5", ".25", "pi", "Pi", "euler", "sin", "a_b", "98765" >>
ExpScalars == << "a", "b", "2", "3", "x", "1.5", "pi", "y_1", "2", "0", "1", ".25" >>
FNames == << "sin", "cos", "tan", "asin", "acos", "atan", "log", "sqrt" >>
Junk == << "+", "-", "*", "/", "^", "(", ")", ",", "a", "2", "sin", "1.5", "**", "-" >>
RECURSIVE Wx(_, _, _)
Wx(k, dep, nt) ==
    LET s(i, m) == Wx(Sub(k, i), dep - 1, m)
        c1 == Rnd(Sub(k, 1), 10)
    IN  CASE nt = "expr" -> IF dep <= 0 \/ c1 <= 3 THEN s(2, "term")
                            ELSE IF c1 <= 6 THEN s(2, "term") \o <<"+">> \o s(3, "term")
                            ELSE IF c1 <= 9 THEN s(2, "term") \o <<"-">> \o s(3, "term")
                            ELSE s(2, "term") \o <<OneOf(Sub(k, 8), <<"+", "-">>)>> \o s(3, "term") \o <<OneOf(Sub(k, 9), <<"+", "-">>)>> \o s(4, "term")
          [] nt = "term" -> IF dep <= 0 \/ c1 <= 3 THEN s(2, "signed")
                            ELSE IF c1 <= 6 THEN s(2, "signed") \o <<"*">> \o s(3, "signed")
                            ELSE IF c1 <= 8 THEN s(2, "signed") \o <<"/">> \o s(3, "signed")
                            ELSE s(2, "signed") \o <<OneOf(Sub(k, 8), <<"*", "/">>)>> \o s(3, "signed") \o <<OneOf(Sub(k, 9), <<"*", "/">>)>> \o s(4, "signed")
          [] nt = "signed" -> IF c1 <= 2 THEN <<"-">> \o s(2, "power") ELSE s(2, "power")
          [] nt = "power" -> IF dep <= 0 \/ c1 <= 6 THEN s(2, "atom") ELSE IF c1 <= 9 THEN s(2, "atom") \o <<"^">> \o s(3, "expo") ELSE s(2, "atom") \o <<"^">> \o s(3, "expo") \o <<"^">> \o s(4, "expo")
          [] nt = "expo" -> IF c1 <= 6 THEN <<OneOf(Sub(k, 2), ExpScalars)>>
                            ELSE IF c1 <= 8 THEN <<"(", "-", OneOf(Sub(k, 2), ExpScalars), ")">>
                            ELSE IF c1 = 9 THEN <<"(", OneOf(Sub(k, 2), ExpScalars), OneOf(Sub(k, 4), <<"+", "*", "/", "-", "^">>), OneOf(Sub(k, 3), ExpScalars), ")">>
                            ELSE <<OneOf(Sub(k, 3), FNames), "(", OneOf(Sub(k, 2), ExpScalars), ")">>
          [] nt = "atom" -> IF dep <= 0 \/ c1 <= 5 THEN <<OneOf(Sub(k, 2), Scalars)>>
                            ELSE IF c1 <= 7 THEN <<"(">> \o s(2, "expr") \o <<")">>
                            ELSE IF c1 <= 9 THEN <<OneOf(Sub(k, 3), FNames), "(">> \o s(2, "expr") \o <<")">>
                            ELSE <<"atan2", "(">> \o s(2, "expr") \o <<",">> \o s(3, "expr") \o <<")">>
Mutate(k, w) ==
    LET i == Rnd(Sub(k, 1), Len(w))
        j == Rnd(Sub(k, 2), Len(w))
        t == OneOf(Sub(k, 3), Junk)
    IN  CASE Rnd(Sub(k, 4), 4) = 1 -> SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
          [] Rnd(Sub(k, 4), 4) = 2 -> SubSeq(w, 1, i) \o <<t>> \o SubSeq(w, i + 1, Len(w))
          [] Rnd(Sub(k, 4), 4) = 3 -> [w EXCEPT ![i] = t]
          [] OTHER -> [w EXCEPT ![i] = w[j], ![j] = w[i]]
ParseS(k) ==
    LET word(i) == LET w == Wx(Sub(k, 10 + i), 8, "expr")
                       u == IF Chance(Sub(k, 50 + i), 1, 2) THEN w ELSE Mutate(Sub(k, 70 + i), w)
                   IN  IF Len(u) = 0 \/ Len(u) > 40 THEN <<"a">> ELSE u
    IN  [load |-> <<>>, do |-> Draw(10, LAMBDA i : <<"ptok", IF Chance(Sub(k, 50 + i), 1, 2) THEN Rnd(Sub(k, 90 + i), 2) - 1 ELSE 1>> \o word(i))]

\* texts for variables, of chunks of names and numbers
Chunks == << "a", "b1", "alpha", "Omega", "pi", "e", "sin", "X", "0", "1", "42", "007", "9", "12345678901234567890" >>
Marks == << "_", "_", "_", "{", "}", "_{", "-", "+", " ", ".", "*", "/", "(" >>
NamedS(k) ==
    LET word(i) == OneOf(Sub(k, i), Chunks) \o OneOf(Sub(k, 10 * i), Chunks)
        text(j) == LET f == Rnd(Sub(k, j), 9)
                       w(i) == word((20 * j) + i)
                       m(i) == OneOf(Sub(k, (20 * j) + (10 + i)), Marks)
                   IN  CASE f = 1 -> w(1) [] f = 2 -> w(1) \o ("_" \o SubSeq(w(2), 1, 1)) [] f = 3 -> w(1) \o ("_{" \o (w(2) \o "}"))
                         [] f = 4 -> w(1) \o ("_" \o w(2)) [] f = 5 -> m(1) \o w(1) [] f = 6 -> w(1) \o (m(1) \o w(2))
                         [] f = 7 -> w(1) \o (m(1) \o (w(2) \o m(2))) [] f = 8 -> OneOf(Sub(k, 3 * j), <<"-", "+", "">>) \o (OneOf(Sub(k, (5 * j) + 1), Chunks) \o OneOf(Sub(k, (7 * j) + 2), <<"0", "1", "42">>))
                         [] OTHER -> w(1) \o ("_{" \o (OneOf(Sub(k, 3 * j), Chunks) \o ("}" \o OneOf(Sub(k, 4 * j), <<"", "", m(2), "1">>))))
    IN  [load |-> <<>>, do |-> Draw(12, LAMBDA i : <<"vstr", Rnd(Sub(k, 700 + i), 2) - 1, text(i)>>)]

\* two polynomials and their product, expanded
Divisible == << <<Su(a, b), Ad(a, b), Su(Po(a, I(2)), Po(b, I(2)))>>, <<Ad(a, I(1)), Su(a, I(1)), Su(Po(a, I(2)), I(1))>>, <<Ad(Ad(Po(a, I(2)), Mu(a, b)), Po(b, I(2))), Su(a, b), Su(Po(a, I(3)), Po(b, I(3)))>>,
                <<Ad(Mu(I(2), a), Mu(I(3), b)), a, Ad(Mu(I(2), Po(a, I(2))), Mu(I(3), Mu(a, b)))>>, <<Ad(a, b), Ad(c, I(1)), Ad(Ad(Mu(a, c), a), Ad(Mu(b, c), b))>>, <<a, b, Mu(a, b)>>,
                <<Ad(a, I(2)), Ad(a, I(3)), Ad(Ad(Po(a, I(2)), Mu(I(5), a)), I(6))>>, <<Ad(Po(a, I(2)), I(1)), b, Ad(Mu(Po(a, I(2)), b), b)>>, <<Ad(a, b), Ad(a, b), Ad(Ad(Po(a, I(2)), Mu(I(2), Mu(a, b))), Po(b, I(2)))>>,
                <<Su(Po(a, I(2)), Po(b, I(2))), Ad(Po(a, I(2)), Po(b, I(2))), Su(Po(a, I(4)), Po(b, I(4)))>> >>

\* history: calls, other calls, caches cleared, options changed and restored, then the same calls again
Hist(k) ==
    LET g == OneOf(Sub(k, 1), <<Arithmetic, RationalG, Mixed, Trigo, NumRoots, TwinG, KinPlain, Kin>>)
        n == 4
        ts == (IF Chance(Sub(k, 3), 1, 4) THEN (IF Chance(Sub(k, 8), 2, 3) THEN OneOf(Sub(k, 9), Divisible) ELSE Draw(3, LAMBDA i : Poly(Sub(k, 10 + i), <<a, b>>, 3, 2))) \o <<Poly(Sub(k, 14), <<a, b>>, 3, 2)>>
               ELSE Draw(n, LAMBDA i : E(Sub(k, 10 + i), [g EXCEPT !.depth = 2]))) \o << a, b, I(2), half >>
        r(i) == Rnd(Sub(k, 20 + i), n)
        polys == Chance(Sub(k, 3), 1, 4)
        pcall(i) == LET o == OneOf(Sub(k, 40 + i), << "divide", "divide", "ldivide", "ldivide", "gcd", "gcd", "pdivide", "poly", "div", "frac", "simplify" >>)
                    IN  CASE o = "ldivide" -> <<o, r(2 * i), r((2 * i) + 1), 5 + (i % 2), 6 - (i % 2)>> [] o = "pdivide" -> <<o, r(2 * i), r((2 * i) + 1), 5>> [] o = "poly" -> <<o, r(2 * i), 5>>
                          [] o \in {"frac", "simplify"} -> <<o, r(2 * i)>> [] OTHER -> <<o, r(2 * i), r((2 * i) + 1)>>
        call(i) == IF polys THEN pcall(i) ELSE LET o == OneOf(Sub(k, 40 + i), <<"add", "sub", "mul", "mul", "div", "pow", "expand", "simplify", "normal", "diff", "subst", "sin", "log", "sqrt", "complexity", "has", "numer", "eq", "roundtrip", "todouble", "query", "sign", "imul", "iadd">>)
                   IN  CASE o \in {"add", "sub", "mul", "div", "has", "eq", "imul", "iadd"} -> <<o, r(2 * i), r((2 * i) + 1)>>
                         [] o = "pow" -> <<o, r(i), 7 + (i % 2)>>
                         [] o = "diff" -> <<o, r(i), 5>>
                         [] o = "subst" -> <<o, r(i), 5 + (i % 2), r(i + 7)>>
                         [] o = "numer" -> <<"frac", r(i)>>
                         [] OTHER -> <<o, r(i)>>
        \* registers are not stable across calls, but calls only refer to the first ones
        base == Draw(6, LAMBDA i : call(i))
        between == OneOf(Sub(k, 2), << << <<"clear">> >>, << <<"frozen">> >>, << <<"maxprime", 2>> >> \o base \o << <<"maxprime", 1000>> >>, << <<"maxprime", 7>>, call(7), call(8), <<"maxprime", 1000>>, <<"clear">> >>, <<call(9), call(10), <<"clear">>, call(8)>> >>)
    IN  [load |-> ts, do |-> base \o between \o Shuffle(Sub(k, 5), base) \o << <<"frozen">> >> \o (IF Chance(Sub(k, 6), 1, 2) THEN << <<"clear">> >> ELSE <<>>) \o Shuffle(Sub(k, 7), base \o <<call(9)>>) \o << <<"frozen">> >>]

Scripted == {"canon", "ident", "gcd", "poly", "lin", "linnum", "parse", "hist", "named"}
Script(k) == CASE Profile = "canon" -> Canon(k)
               [] Profile = "ident" -> Ident(k)
               [] Profile = "gcd" -> GcdS(k)
               [] Profile = "poly" -> PolyS(k)
               [] Profile = "lin" -> Lin(k, FALSE)
               [] Profile = "linnum" -> Lin(k, TRUE)
               [] Profile = "parse" -> ParseS(k)
               [] Profile = "hist" -> Hist(k)
               [] Profile = "named" -> NamedS(k)

-----------------------------------------------------------------------------
(* Sessions of random calls.  est: rough size of what is in the registers, to keep operands small *)

ExpRegs == << I(2), I(-1), I(3), I(-2), I(OneOf(Common(15), <<4, 5, 6, 7, -3, -4, -5, 0, 8>>)), half, Q(-1, 2), Q(2, 3), Q(3, 2), Q(1, 3), a, y, b, x >>
NInt == 5
NExp == Len(ExpRegs)

RECURSIVE Weight(_)
RECURSIVE WeightSum(_, _)
WeightSum(t, i) == IF i > Len(t) THEN 0 ELSE Weight(t[i]) + WeightSum(t, i + 1)
Weight(t) == IF Len(t) = 1 THEN 1 ELSE 1 + WeightSum(t, 2)

RECURSIVE Pick(_, _, _, _)
Pick(k, est, cap, tries) == LET i == NExp + Rnd(Sub(k, tries), Len(est) - NExp)
                            IN  IF est[i] <= cap THEN i ELSE IF tries = 0 THEN 1 ELSE Pick(k, est, cap, tries - 1)

\* a call and the sizes of what it adds
RandomCall(k, est) ==
    LET o == OneOf(Sub(k, 1), P.calls)
        r1 == Pick(Sub(k, 2), est, 24, 6)
        r2 == Pick(Sub(k, 3), est, 24, 6)
        s1 == Pick(Sub(k, 4), est, 14, 6)
        s2 == Pick(Sub(k, 5), est, 14, 6)
        sym == NExp - 3 + Rnd(Sub(k, 6), 4) - 1
        w(i) == <<est[i] + 1>>
    IN  CASE o \in {"add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "atan2"} -> [c |-> <<o, r1, r2>>, w |-> <<est[r1] + est[r2]>>]
          [] o = "pow" -> [c |-> <<o, s1, s2>>, w |-> <<est[s1] + est[s2]>>]
          [] o = "powi" -> [c |-> <<"pow", s1, Rnd(Sub(k, 7), NInt)>>, w |-> w(s1)]
          [] o = "powq" -> [c |-> <<"pow", s1, NInt + Rnd(Sub(k, 7), 5)>>, w |-> w(s1)]
          [] o = "powx" -> [c |-> <<"pow", s1, Rnd(Sub(k, 7), NExp)>>, w |-> w(s1)]
          [] o = "subst" -> [c |-> <<o, r1, sym, s1>>, w |-> <<est[r1] + est[s1]>>]
          [] o = "substx" -> [c |-> <<"subst", r1, s1, s2>>, w |-> <<est[r1] + est[s2]>>]
          [] o = "diff" -> [c |-> <<o, s1, sym>>, w |-> <<3 * est[s1]>>]
          [] o \in {"expand", "simplify", "normal"} -> [c |-> <<o, s1>>, w |-> <<est[s1] + 4>>]
          [] o = "frac" -> [c |-> <<o, s1>>, w |-> <<est[s1] + 4, est[s1] + 4>>]
          [] o \in {"eq", "has", "ncmp"} -> [c |-> <<o, Pick(Sub(k, 8), est, 60, 6), Pick(Sub(k, 9), est, 60, 6)>>, w |-> <<>>]
          [] o \in {"sign", "todouble", "toint", "query", "complexity", "stream"} -> [c |-> <<o, Pick(Sub(k, 8), est, 40, 6)>>, w |-> <<>>]
          [] o = "simpcx" -> [c |-> <<o, s1>>, w |-> <<>>]
          [] o = "op" -> [c |-> <<o, r1, Rnd(Sub(k, 7), 4) - 1>>, w |-> w(r1)]
          [] OTHER -> [c |-> <<o, r1>>, w |-> w(r1)]

\* Some sessions are played with other names: nothing depends on what symbols are called
Castings == << << S("pp_1"), S("pp_2"), S("pp_{12}"), Pos("pp_1"), Pos("pp_3") >>, << S("p_{abc}"), S("p_{abcd}"), S("p_{ab}"), Pos("q"), Pos("p_{abc}") >>, << S("a"), S("a_1"), S("a_2"), Pos("a"), Pos("a_1") >>,
               << S("alpha"), S("beta"), S("alpha_1"), Pos("beta"), Pos("Alpha") >>, << S("B"), S("A"), S("aa"), Pos("ab"), Pos("b") >>, << S("z"), S("y"), S("x"), Pos("d"), Pos("c") >>,
               << S("x1"), S("x10"), S("x2"), Pos("x1"), Pos("x3") >>, << S("c"), S("b"), S("a"), Pos("y"), Pos("x") >> >>
RECURSIVE Recast(_, _)
Recast(t, r) == IF Len(t) = 1 THEN (CASE t = a -> r[1] [] t = b -> r[2] [] t = c -> r[3] [] t = x -> r[4] [] t = y -> r[5] [] OTHER -> t)
                ELSE <<t[1]>> \o [i \in 1..(Len(t) - 1) |-> Recast(t[i + 1], r)]
Cast(p) == IF ~Chance(Common(20), 2, 5) THEN p
           ELSE LET r == OneOf(Common(21), Castings) IN [p EXCEPT !.load = [i \in DOMAIN p.load |-> Recast(p.load[i], r)]]

Init == /\ id \in 1..Count
        /\ IF Profile \in Scripted THEN left = 0 /\ sizes = <<>> /\ prog = Script(KeyOf(id))
           ELSE /\ left = P.ncalls
                /\ prog = [load |-> ExpRegs \o Draw(P.nload, LAMBDA i : IF Chance(Sub(KeyOf(id), 1000 + i), 1, 3) THEN Shallow(Sub(KeyOf(id), 500 + i), P.g) ELSE E(Sub(KeyOf(id), 500 + i), P.g)), do |-> <<>>]
                /\ sizes = [i \in 1..Len(prog.load) |-> Weight(prog.load[i])]

Call == /\ left > 0
        /\ LET r == RandomCall(Sub(KeyOf(id), 2000 + left), sizes)
           IN  prog' = [prog EXCEPT !.do = Append(@, r.c)] /\ sizes' = sizes \o r.w
        /\ left' = left - 1
        /\ id' = id

Finish == /\ left = 0
          /\ PrintT(ToJson(Cast(prog)))
          /\ left' = -1
          /\ UNCHANGED <<id, prog, sizes>>

Next == Call \/ Finish
Spec == Init /\ [][Next]_all
View == <<id, left>>
=============================================================================
