-------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* Terms to build sessions from.  A term is a tuple: a leaf is             *)
(* <<"instruction">>, an application <<"operation", term, ...>>.  They are *)
(* built by calls of the API, every one of which is checked as well.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

I(n) == <<"int " \o ToString(n)>>
Q(n, d) == <<"rat " \o ToString(n) \o " " \o ToString(d)>>
S(s) == <<"sym " \o s>>
Pos(s) == <<"psym " \o s>>
Pi == <<"pi">>
Euler == <<"euler">>
Dbl(s) == <<"dbl " \o s>>
Big(s) == <<"big " \o s>>
Und == <<"div", I(1), I(0)>>

Ad(x, y) == <<"add", x, y>>
Su(x, y) == <<"sub", x, y>>
Mu(x, y) == <<"mul", x, y>>
Di(x, y) == <<"div", x, y>>
Po(x, y) == <<"pow", x, y>>
Ne(x) == <<"neg", x>>
Sq(x) == <<"sqrt", x>>
Fn(f, x) == <<f, x>>

a == S("a")
b == S("b")
c == S("c")
d == S("d")
x == Pos("x")
y == Pos("y")
half == Q(1, 2)

-----------------------------------------------------------------------------
(* Pools, as sequences: sessions refer to positions *)

Numbers == << I(0), I(1), I(-1), I(2), I(-3), I(4), I(6), I(-12), half, Q(-2, 3), Q(9, 4), Q(5, 6) >>

Roots == << Sq(I(2)), Sq(I(3)), Sq(I(6)), Ne(Sq(I(2))), Sq(half), Po(I(2), Q(1, 3)), Po(I(2), Q(-2, 3)),
            Po(I(12), Q(1, 4)), Mu(I(2), Sq(I(3))), Ad(I(1), Sq(I(2))), Su(Sq(I(2)), I(2)), Po(I(3), Q(3, 2)) >>

Constants == << Pi, Mu(I(2), Pi), Di(Pi, I(3)), Euler, Po(Pi, I(2)), Sq(Pi) >>

Monomials == << a, b, x, Ne(a), Mu(I(2), a), Di(a, I(2)), Mu(Q(-2, 3), a), Mu(a, b), Mu(a, x), Mu(I(3), Mu(a, b)), Po(a, I(2)), Po(a, I(3)),
                Po(a, I(-1)), Po(a, I(-2)), Di(a, b), Di(b, a), Mu(Po(a, I(2)), b), Mu(Sq(I(2)), a), Mu(Pi, a), Di(a, Mu(I(3), b)) >>

RootTerms == << Sq(a), Sq(x), Po(a, Q(-1, 2)), Po(x, Q(-1, 2)), Po(a, Q(1, 3)), Po(x, Q(2, 3)), Po(a, Q(3, 2)), Po(x, Q(3, 2)), Sq(Mu(a, b)), Sq(Mu(a, x)),
                Sq(Mu(I(2), a)), Sq(Mu(I(2), x)), Sq(Di(a, b)), Sq(Po(a, I(2))), Po(Po(a, I(2)), Q(1, 3)), Po(a, Q(-5, 6)), Mu(Sq(I(2)), Sq(x)), Sq(Po(a, I(3))) >>

SymPowers == << Po(a, b), Po(x, b), Po(I(2), a), Po(I(2), Ne(a)), Po(a, Mu(I(2), b)), Po(x, Mu(I(2), b)), Po(Euler, a), Po(Po(x, a), b), Po(Po(a, I(2)), b), Po(half, a) >>

Sums == << Ad(a, b), Su(a, b), Ad(I(1), a), Su(a, I(1)), Ad(Ad(a, b), I(1)), Ad(Mu(I(2), a), Mu(I(3), b)), Ad(Mu(I(2), a), Mu(I(2), b)), Ad(Sq(I(2)), a),
           Ad(Sq(a), I(1)), Ad(a, Pi), Ad(Po(a, I(2)), I(1)), Ad(a, x), Ad(x, y), Ad(I(1), x), Su(Po(a, I(2)), Po(b, I(2))), Ad(Di(a, b), I(1)) >>

SumPowers == << Po(Ad(a, b), I(2)), Po(Ad(a, b), I(-1)), Po(Su(a, b), I(3)), Sq(Ad(a, b)), Sq(Ad(x, y)), Po(Ad(I(1), a), I(-2)), Di(Ad(a, b), Su(a, b)), Mu(a, Ad(a, b)),
                Mu(I(2), Mu(a, Ad(I(1), b))), Po(Ad(I(1), x), half), Mu(Ad(a, b), Ad(a, c)), Po(Ad(x, y), Q(-3, 2)) >>

Fcts == << Fn("sin", a), Fn("cos", a), Fn("tan", a), Fn("asin", a), Fn("acos", a), Fn("atan", a), Fn("log", a), Fn("log", x), Fn("sin", b), Fn("sin", Ad(a, b)),
           Fn("cos", Mu(I(2), a)), Fn("log", I(2)), Fn("sin", I(1)), Fn("atan", I(2)), Fn("log", Ad(I(1), x)) >>

FctPowers == << Po(Fn("sin", a), I(2)), Po(Fn("cos", a), I(2)), Po(Fn("tan", a), I(2)), Po(Fn("sin", a), I(-1)), Po(Fn("cos", a), I(-1)), Po(Fn("tan", a), I(-1)), Po(Fn("cos", a), I(-2)),
                Sq(Fn("sin", a)), Sq(Fn("cos", a)), Sq(Fn("tan", a)), Po(Fn("cos", a), Q(-1, 2)), Mu(Fn("sin", a), Fn("cos", a)), Mu(I(2), Fn("log", x)), Po(Fn("log", x), I(2)),
                Mu(a, Fn("sin", a)), Mu(I(3), Po(Fn("sin", a), I(2))), Mu(Fn("sin", a), Fn("sin", b)), Po(Fn("tan", a), I(-2)), Po(Fn("sin", a), I(3)), Mu(b, Po(Fn("cos", a), I(2))) >>

Doubles == << Dbl("0.123456789"), Dbl("-2.718281828"), Dbl("12345.678901"), Mu(Dbl("1.23456789"), a), Ad(Dbl("0.987654321"), a) >>

All == Numbers \o Roots \o Constants \o Monomials \o RootTerms \o SymPowers \o Sums \o SumPowers \o Fcts \o FctPowers
=============================================================================
