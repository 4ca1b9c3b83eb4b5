--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Exhaustive generation of sessions.  Every session is a state (its       *)
(* parameters); TLC visits all of them and prints the calls.  A session is *)
(*    load  terms whose values become the first registers 1, 2, ...        *)
(*    do    calls <<operation, register or integer, ...>>; each call that  *)
(*          returns an expression appends a register                       *)
(***************************************************************************)
EXTENDS Terms, Json, IOUtils

Family == IOEnv.FAMILY
Thorough == IOEnv.TIER = "thorough"

Min(p, q) == IF p < q THEN p ELSE q
Chunks(pool, n) == (Len(pool) + n - 1) \div n
ChunkOf(pool, n, k) == SubSeq(pool, (k - 1) * n + 1, Min(k * n, Len(pool)))
Ids1(pool, n) == {<<k>> : k \in 1..Chunks(pool, n)}
Ids2(pool1, pool2, n) == {<<i, k>> : i \in 1..Len(pool1), k \in 1..Chunks(pool2, n)}
Pairs(pool) == {<<i, j>> \in (1..Len(pool)) \X (1..Len(pool)) : i < j}
Triples(pool) == {<<i, j, k>> \in (1..Len(pool)) \X (1..Len(pool)) \X (1..Len(pool)) : i <= j /\ j <= k}
Cube(p1, p2, p3) == (1..Len(p1)) \X (1..Len(p2)) \X (1..Len(p3))

RECURSIVE Cat(_, _, _)
Cat(f(_), i, n) == IF i > n THEN <<>> ELSE f(i) \o Cat(f, i + 1, n)
Map(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]

\* one register against all of those in a chunk
Against(t, pool, n, k, calls(_, _)) ==
    LET ch == ChunkOf(pool, n, k)
    IN  [load |-> <<t>> \o ch, do |-> Cat(LAMBDA i : calls(1, i + 1), 1, Len(ch))]

\* calls on every register of a chunk
Each(pool, n, k, calls(_)) ==
    LET ch == ChunkOf(pool, n, k)
    IN  [load |-> ch, do |-> Cat(calls, 1, Len(ch))]

\* terms only, every one of them a session of calls
Terms1(pool, n, k) == [load |-> ChunkOf(pool, n, k), do |-> <<>>]

-----------------------------------------------------------------------------
(* Arithmetic *)

ArithCalls(i, j) == << <<"add", i, j>>, <<"sub", i, j>>, <<"mul", i, j>>, <<"div", i, j>> >>
DblOthers == Doubles \o Numbers \o Roots \o Monomials \o Fcts

\* three operands at a time: contraction with what is already inside of a sum or product
Triple(id, pool) ==
    [load |-> <<pool[id[1]], pool[id[2]], pool[id[3]]>>,
     do |-> << <<"add", 1, 2>>, <<"add", 4, 3>>, <<"sub", 5, 1>>, <<"mul", 1, 2>>, <<"mul", 7, 3>>, <<"div", 8, 2>>, <<"mul", 4, 3>>, <<"iadd", 8, 8>>, <<"isub", 5, 5>>,
               <<"neg", 5>>, <<"add", 5, 12>>, <<"idiv", 8, 8>>, <<"imul", 7, 7>> >>]

\* powers of two of sine, cosine and tangent of the same argument, with coefficients
KinFs == << "sin", "cos", "tan" >>
KinPow == << I(1), I(2), I(3), I(4), I(-1), I(-2), I(-3), I(-4), half, Q(-1, 2), Q(3, 2), I(6) >>
KinArg == << a, Ad(a, b), x, I(1), Mu(Q(2, 7), Pi), Mu(I(2), a) >>
TrigKin(id) ==
    LET t == KinArg[((id[1] * 5 + id[2] * 7 + id[3] * 3 + id[4]) % Len(KinArg)) + 1]
    IN  [load |-> << Po(Fn(KinFs[id[1]], t), KinPow[id[2]]), Po(Fn(KinFs[id[3]], t), KinPow[id[4]]), I(3), b >>,
         do |-> ArithCalls(1, 2) \o << <<"mul", 3, 1>>, <<"mul", 3, 2>>, <<"add", 9, 10>>, <<"sub", 9, 10>>, <<"mul", 4, 1>>, <<"mul", 4, 2>>, <<"add", 13, 14>>, <<"sub", 14, 13>>, <<"mul", 13, 14>>, <<"div", 14, 13>>, <<"add", 11, 3>>, <<"sub", 5, 3>>, <<"mul", 7, 1>>, <<"div", 7, 2>>, <<"add", 5, 1>> >>]

\* squares and products of functions of different, but related arguments
RelArgs == << << a, Mu(I(2), a) >>, << a, Ne(a) >>, << a, Ad(a, b) >>, << a, x >>, << Mu(I(2), a), Mu(I(3), a) >>, << a, Pos("a") >>, << a, Mu(a, b) >>, << Ad(a, b), Su(a, b) >>, << I(1), I(2) >>, << a, Po(a, I(2)) >>, << Mu(Q(1, 7), Pi), Mu(Q(2, 7), Pi) >>, << a, Ad(a, I(1)) >>, << a, Ad(a, Di(Pi, I(2))) >>, << Sq(I(2)), Sq(I(3)) >>, << Mu(a, Ad(b, I(1))), Ad(a, Mu(a, b)) >>, << S("a_1"), S("a_2") >>, << Mu(half, a), a >> >>
RelPow == << I(1), I(2), I(-1), I(-2), I(4), half, I(3) >>
TrigRel(id) ==
    LET t == RelArgs[id[1]]
    IN  [load |-> << Po(Fn(KinFs[id[2]], t[1]), RelPow[id[4]]), Po(Fn(KinFs[id[3]], t[2]), RelPow[id[5]]), I(3), b >>,
         do |-> ArithCalls(1, 2) \o << <<"mul", 3, 1>>, <<"mul", 3, 2>>, <<"add", 9, 10>>, <<"sub", 10, 9>>, <<"mul", 4, 1>>, <<"mul", 4, 2>>, <<"add", 13, 14>>, <<"add", 5, 3>>, <<"mul", 7, 4>> >>]

-----------------------------------------------------------------------------
(* Powers *)

Exponents == << I(0), I(1), I(-1), I(2), I(-2), I(3), I(-3), I(4), half, Q(-1, 2), Q(1, 3), Q(-1, 3), Q(2, 3), Q(3, 2), Q(-3, 2), Q(4, 3), Q(5, 6), b, Ne(a), y, Mu(I(2), b),
                Mu(half, a), Sq(I(2)), Pi, Ad(I(1), b), Fn("log", y) >>
PowCalls(i, j) == << <<"pow", i, j>> >>

NestBases == << a, x, Ne(a), Mu(I(2), a), Mu(I(-3), x), Mu(a, b), Mu(a, x), Mu(x, y), Di(a, b), Po(a, I(2)), Ad(a, b), Ad(x, y), Su(a, b), Fn("sin", a), Fn("log", x), I(2), I(-2), Q(-8, 27), Sq(I(2)),
               Su(Sq(I(2)), I(2)), Pi, Po(a, b), Mu(Mu(a, b), x), Ne(x), Po(Su(a, b), I(2)), Mu(I(-2), Po(a, I(3))) >>
NestExps == << I(2), I(-1), I(3), I(-2), half, Q(-1, 2), Q(1, 3), Q(2, 3), Q(3, 2), Q(4, 3), Q(-5, 2), I(4), b, y, Mu(I(2), a), Q(2, 5) >>
Nest(id) == [load |-> <<NestBases[id[1]], NestExps[id[2]]>> \o NestExps,
             do |-> << <<"pow", 1, 2>> >> \o Cat(LAMBDA i : << <<"pow", 3 + Len(NestExps), i + 2>> >>, 1, Len(NestExps))
                    \o << <<"sqrt", 3 + Len(NestExps)>>, <<"sqrt", 1>> >>]

NumPowMax == IF Thorough THEN 1200 ELSE 260
NumExps == << half, Q(1, 3), Q(2, 3), Q(-1, 2), Q(3, 2), Q(-5, 6), Q(1, 4), Q(3, 4), Q(7, 3), Q(1, 6) >>
NumPow(id) == [load |-> NumExps \o <<I(id[1]), Q(1, id[1] + 1), Q(id[1], 1 + (id[1] % 7)), Q(-id[1], 3)>>,
               do |-> Cat(LAMBDA i : Cat(LAMBDA j : << <<"pow", 10 + j, i>> >>, 1, 4), 1, 10)]
FracPow(id) == [load |-> NumExps \o <<Q(id[1], id[2]), Q(id[1] * id[1] * id[2], 4), Q(id[2] * id[2] * id[2], id[1] * id[1])>>,
                do |-> Cat(LAMBDA i : Cat(LAMBDA j : << <<"pow", 10 + j, i>> >>, 1, 3), 1, 10)
                       \o Cat(LAMBDA i : << <<"mul", 12 + 3 * i - 1, 12 + 3 * i + 1>>  >>, 1, 9)]

-----------------------------------------------------------------------------
(* Order of construction *)

OrderPool == << Euler, Po(Pi, I(2)), <<"atan2", a, b>>, <<"atan2", a, c>>, I(2), Q(-2, 3), Sq(I(2)), Sq(I(3)), Po(I(2), Q(1, 3)), Pi, a, b, x, Ne(a), Po(a, I(2)), Po(a, I(-1)), Sq(a), Sq(x), Po(a, Q(-1, 2)), Po(x, Q(1, 3)), Mu(I(2), a), Mu(a, b), Mu(Sq(I(2)), a), Mu(I(3), Sq(a)), Po(a, b), Po(I(2), a),
                Po(a, Q(3, 2)), Po(a, Mu(I(2), b)), Fn("sin", a), Fn("cos", a), Fn("tan", a), Fn("log", x), Po(Fn("sin", a), I(2)), Po(Fn("cos", a), I(2)), Po(Fn("cos", a), I(-1)), Fn("log", I(2)), Fn("sin", I(1)), Su(I(0), Sq(I(3))), Mu(Sq(I(3)), b), Po(Mu(a, b), half) >>
\* sums and products of three: all groupings and orders that differ by more than the last exchange
OrderCalls(op, n) == << <<op, 1, 2>>, <<op, n + 1, 3>>, <<op, 3, n + 1>>, <<op, 1, 3>>, <<op, n + 4, 2>>, <<op, 2, n + 4>>, <<op, 2, 3>>, <<op, n + 7, 1>>, <<op, 1, n + 7>>, <<op, 2, 1>> >>
Order3(id) == [load |-> <<OrderPool[id[1]], OrderPool[id[2]], OrderPool[id[3]]>>,
               do |-> OrderCalls("add", 3) \o OrderCalls("mul", 13) \o << <<"rebuild", 5, 3, 1>>, <<"rebuild", 15, 5, 2>>, <<"eq", 5, 9>>, <<"eq", 15, 19>> >>]

OrderSums == << Ad(a, b), Ad(I(1), a), Su(a, b), Po(Ad(a, b), I(2)), Po(Ad(a, b), I(-1)), Sq(Ad(a, b)), Mu(a, Ad(a, b)), Ad(Fn("sin", a), I(1)), Ad(Sq(I(2)), I(1)), Mu(Sq(I(2)), Ad(I(1), Sq(I(3)))), a, I(3), Sq(I(2)), Po(Fn("sin", a), I(2)), Mu(I(2), Po(Fn("cos", a), I(2))), Pi, x, Q(1, 2), Fn("log", x), Ad(Pi, I(-3)) >>
\* ... with sums among the terms only the sums are subject to it
Order3Sums(id) == [load |-> <<OrderSums[id[1]], OrderSums[id[2]], OrderSums[id[3]]>>,
               do |-> OrderCalls("add", 3) \o << <<"rebuild", 5, 3, 1>>, <<"rebuild", 5, 7, 3>>, <<"eq", 5, 9>>, <<"sub", 5, 9>> >>]

-----------------------------------------------------------------------------
(* Equality *)

EqBig == << Big("12345678901234567890123"), Big("12345678901234567890124"), Di(Big("12345678901234567890123"), Big("12345678901234567890122")), Big("9007199254740993"), Big("9007199254740992"),
            Mu(Big("12345678901234567890123"), a), Mu(Big("12345678901234567890124"), a), Po(a, Big("12345678901234567890123")) >>
EqNames == << S("a_1"), S("a_2"), S("a_{12}"), S("aa"), S("A"), Pos("a"), Pos("b"), S("x"), S("alpha"), S("e"), S("sin"), Fn("sin", x), Fn("sin", S("x")), Ad(x, S("x")), Po(S("x"), I(2)), Po(x, I(2)), S("a_{bc}"), S("ab_c"), S("ab") >>
EqPool == All \o EqBig \o EqNames
EqCalls(i, j) == << <<"eq", i, j>> >>
\* the same things made in another way
\* terms that differ in a single place
NearLeaves == << a, b, x, S("x"), I(2), I(3), half, Pi, Euler, Sq(I(2)), Ad(a, b), Fn("sin", a), Po(a, b), Dbl("0.1234") >>
NearTerm(k, u, v, w) ==
    CASE k = 1 -> <<"atan2", u, v>> [] k = 2 -> Po(u, v) [] k = 3 -> Ad(u, Ad(Mu(I(2), v), Mu(I(3), w))) [] k = 4 -> Mu(u, Mu(Po(v, I(2)), w)) [] k = 5 -> Fn("sin", <<"atan2", u, v>>)
      [] k = 6 -> Po(Ad(u, Mu(c, v)), w) [] k = 7 -> Fn("log", Ad(Ad(u, v), w)) [] k = 8 -> Ad(Mu(Po(u, I(2)), Fn("sin", v)), w) [] k = 9 -> <<"atan2", Mu(u, v), w>> [] k = 10 -> Mu(Fn("atan", u), Po(Fn("tan", v), w))
      [] k = 11 -> Di(Ad(u, c), Su(v, Mu(c, w))) [] OTHER -> Po(Fn("cos", Ad(u, Fn("sin", v))), w)
NearBy(id) ==
    LET k == id[1]
        l(i) == NearLeaves[1 + (i % Len(NearLeaves))]
        v == l(id[3])
        w == l(id[3] + 5)
        n == Len(NearLeaves)
    IN  [load |-> <<NearTerm(k, v, w, c)>> \o [i \in 1..n |-> IF id[2] = 1 THEN NearTerm(k, l(i), w, c) ELSE IF id[2] = 2 THEN NearTerm(k, v, l(i), c) ELSE NearTerm(k, v, w, l(i))],
         do |-> Cat(LAMBDA i : << <<"eq", 1, i>>, <<"eq", i, 1>>, <<"has", i, 1>> >>, 1, n + 1) \o Cat(LAMBDA i : << <<"eq", i, i + 1>> >>, 1, n)
                \o << <<"add", 1, 2>>, <<"add", 1, 3>>, <<"eq", n + 2, n + 3>>, <<"sub", 1, 4>>, <<"sub", 1, 1 + n>>, <<"div", 1, 3>>, <<"mul", 1, 4>> >>]
Twin(id) == LET t == All[id[1]]
            IN  [load |-> <<t, c, I(3), Ad(a, b)>>,
                 do |-> << <<"add", 1, 2>>, <<"sub", 5, 2>>, <<"eq", 1, 6>>, <<"mul", 3, 1>>, <<"div", 7, 3>>, <<"eq", 8, 1>>, <<"mul", 2, 1>>, <<"div", 9, 2>>, <<"eq", 10, 1>>, <<"neg", 1>>, <<"neg", 11>>, <<"eq", 1, 12>>,
                           <<"add", 4, 1>>, <<"add", 1, 4>>, <<"eq", 13, 14>>, <<"rebuild", 1, 3, 2>>, <<"eq", 1, 15>>, <<"eq", 1, 1>>, <<"eq", 5, 5>>, <<"eq", 5, 1>>, <<"eq", 9, 9>>, <<"eq", 9, 13>>, <<"print", 1>>, <<"print", 15>> >>]

-----------------------------------------------------------------------------
(* Expansion and normal forms *)

PolyPool == << a, b, Ad(a, b), Su(a, b), Ad(I(1), a), Su(Mu(I(2), a), I(3)), Mu(a, b), Po(a, I(2)), Ad(Po(a, I(2)), b), Su(Po(a, I(2)), Po(b, I(2))), Mu(Q(2, 3), c), Ad(Ad(a, b), c), I(-2), Ad(Mu(half, a), Q(1, 3)), Po(Ad(a, b), I(2)), Po(Su(a, I(1)), I(3)) >>
Expand3(id) == [load |-> <<PolyPool[id[1]], PolyPool[id[2]], PolyPool[id[3]]>>,
                do |-> << <<"add", 1, 2>>, <<"mul", 4, 3>>, <<"mul", 1, 3>>, <<"mul", 2, 3>>, <<"sub", 5, 6>>, <<"sub", 8, 7>>, <<"expand", 9>>, <<"expand", 5>>, <<"expand", 11>>, <<"add", 5, 6>>, <<"expand", 13>>, <<"mul", 6, 2>>, <<"expand", 15>> >>]
ExpandPool == PolyPool \o << Sq(I(2)), Ad(I(1), Sq(I(2))), Ad(Sq(a), I(1)), Sq(Ad(a, b)), Po(Ad(a, b), I(-1)), Po(Su(a, b), I(-2)), Po(Ad(a, b), Q(3, 2)), Po(Ad(x, y), Q(5, 2)), Fn("sin", a), Ad(Fn("sin", a), Fn("cos", a)), Fn("sin", Mu(a, Ad(a, b))), Fn("log", Mu(x, Ad(I(1), x))), Po(Ad(I(1), a), b),
                               Po(I(2), Mu(a, Ad(I(1), b))), Mu(Ad(a, b), Ad(a, Mu(I(-1), c))), Mu(Pi, Ad(a, I(1))), Di(Ad(a, b), Ad(a, c)), Po(Mu(a, Ad(a, b)), I(2)), Po(Mu(x, Ad(x, y)), half), Po(Mu(Ad(a, b), Ad(I(1), c)), I(3)), Ad(a, Mu(b, Ad(a, b))) >>
ExpandCalls(i, j) == << <<"mul", i, j>>, <<"add", i, j>> >>
Expand2(id) == [load |-> <<ExpandPool[id[1]], ExpandPool[id[2]], I(2), I(3), I(-2)>>,
                do |-> << <<"mul", 1, 2>>, <<"expand", 6>>, <<"expand", 7>>, <<"add", 1, 2>>, <<"pow", 9, 3>>, <<"expand", 10>>, <<"expand", 11>>, <<"pow", 9, 4>>, <<"expand", 13>>, <<"pow", 6, 3>>, <<"expand", 15>>, <<"sub", 10, 11>>, <<"expand", 17>>,
                          <<"div", 6, 9>>, <<"expand", 19>>, <<"expand", 20>>, <<"pow", 9, 5>>, <<"expand", 22>>, <<"mul", 10, 1>>, <<"expand", 24>>, <<"sin", 6>>, <<"expand", 26>> >>]

\* higher powers of sums
PowSums == << Ad(a, b), Su(a, b), Ad(Mu(a, b), c), Ad(Ad(a, b), c), Ad(Su(Po(a, I(2)), b), I(1)), Ad(Mu(Q(2, 3), a), Q(1, 2)), Ad(Sq(I(2)), a), Ad(Sq(x), I(1)), Ad(Fn("sin", a), b), Ad(Di(I(1), a), b), Ad(Po(a, Q(2, 3)), I(2)), Su(Pi, a), Ad(Sq(I(2)), Sq(I(3))), Ad(I(1), Mu(I(-2), Mu(a, x))), Ad(Po(a, b), I(1)), Ad(Sq(a), Sq(b)), Mu(Ad(a, b), Su(a, I(2))) >>
PowExps == << I(2), I(3), I(4), I(5), I(6), I(7), I(8), I(-2), I(-3), I(-6), Q(3, 2), Q(5, 2), Q(7, 3), Q(-7, 2), Ad(b, I(2)), Mu(I(2), b) >>
ExpandPow(id) == [load |-> <<PowSums[id[1]], PowExps[id[2]], c, I(1)>>,
                  do |-> << <<"pow", 1, 2>>, <<"expand", 5>>, <<"expand", 6>>, <<"sub", 6, 5>>, <<"expand", 8>>, <<"mul", 3, 5>>, <<"expand", 10>>, <<"add", 10, 1>>, <<"expand", 12>>, <<"mul", 5, 1>>, <<"expand", 14>>, <<"add", 4, 5>>, <<"expand", 16>>, <<"div", 1, 5>>, <<"expand", 18>> >>]

RatPool == << a, Ad(a, b), Su(a, b), Ad(I(1), a), Su(a, I(1)), Mu(a, b), Po(a, I(2)), Su(Po(a, I(2)), Po(b, I(2))), Su(Po(a, I(2)), I(1)), Po(Ad(a, b), I(2)), Di(I(1), a), Di(a, b), Di(Ad(a, b), Su(a, b)), Di(I(1), Ad(I(1), a)), Ad(Di(I(1), a), Di(I(1), b)),
              Mu(Q(2, 3), b), I(-3), Ad(Mu(half, a), Mu(Q(1, 3), b)), Di(c, Ad(a, b)), Po(Su(a, b), I(-2)), Ad(I(1), Di(a, b)), Su(Mu(I(2), a), Mu(I(3), c)), Di(Su(a, c), Mu(a, Ad(b, c))), Po(Ad(Mu(a, b), I(1)), I(2)) >>
\* combinations of two rational functions, with identities that vanish
Rat2(id) == [load |-> <<RatPool[id[1]], RatPool[id[2]], I(1)>>,
             do |-> << <<"div", 3, 1>>, <<"div", 3, 2>>, <<"add", 4, 5>>, <<"add", 1, 2>>, <<"mul", 1, 2>>, <<"div", 7, 8>>, <<"sub", 6, 9>>, <<"simplify", 10>>, <<"normal", 10>>, <<"simplify", 6>>, <<"normal", 6>>, <<"frac", 6>>, <<"frac", 9>>,
                       <<"div", 1, 2>>, <<"sub", 19, 3>>, <<"div", 20, 19>>, <<"simplify", 21>>, <<"normal", 21>>, <<"frac", 21>>, <<"add", 1, 5>>, <<"div", 26, 7>>, <<"simplify", 27>>, <<"normal", 27>>, <<"frac", 27>>, <<"simpcx", 10>>, <<"simpcx", 21>>, <<"simpcx", 27>> >>]
\* a common factor, hidden in sums
Rat3(id) == [load |-> <<PolyPool[id[1]], PolyPool[id[2]], PolyPool[id[3]]>>,
             do |-> << <<"mul", 1, 2>>, <<"expand", 4>>, <<"mul", 1, 3>>, <<"expand", 6>>, <<"div", 5, 7>>, <<"simplify", 8>>, <<"normal", 8>>, <<"frac", 8>>, <<"div", 4, 7>>, <<"div", 2, 3>>, <<"sub", 8, 14>>, <<"normal", 15>>, <<"simplify", 15>>, <<"simpcx", 8>> >>]

\* sums of three fractions whose denominators have factors in common
FracTerms == << Di(I(1), a), Di(b, Po(a, I(2))), Di(c, Po(a, I(3))), Po(a, I(-4)), Di(I(2), Mu(a, b)), Di(c, Mu(Po(a, I(2)), b)), Po(Mu(a, b), I(-2)), Di(b, Ad(a, b)), Po(Ad(a, b), I(-2)), Di(a, Po(Ad(a, b), I(3))), Di(I(1), Su(a, b)), Di(c, Su(Po(a, I(2)), Po(b, I(2)))), Q(2, 3), Di(a, I(6)), Di(I(1), Mu(I(3), a)), Di(b, Mu(a, Ad(a, b))) >>
FracSum(id) == [load |-> <<FracTerms[id[1]], FracTerms[id[2]], FracTerms[id[3]], I(-3)>>,
                do |-> << <<"add", 1, 2>>, <<"add", 5, 3>>, <<"simplify", 6>>, <<"normal", 6>>, <<"frac", 6>>, <<"sub", 6, 7>>, <<"simplify", 11>>, <<"pow", 5, 4>>, <<"frac", 13>>, <<"sub", 5, 3>>, <<"frac", 16>>, <<"normal", 16>> >>]

FracNums == << I(1), b, c, a >>
FracDens == << a, Po(a, I(2)), Po(a, I(3)), Po(a, I(4)), Po(a, I(6)), Mu(a, b), Mu(Po(a, I(2)), b), Ad(a, b), Po(Ad(a, b), I(2)), Po(Ad(a, b), I(3)), Mu(a, Ad(a, b)) >>
RatioPool == [i \in 1..(Len(FracNums) * Len(FracDens)) |-> Di(FracNums[1 + ((i - 1) % Len(FracNums))], FracDens[1 + ((i - 1) \div Len(FracNums))])]
FracPair(id) == [load |-> <<RatioPool[id[1]], RatioPool[id[2]]>>, do |-> << <<"add", 1, 2>>, <<"simplify", 3>>, <<"normal", 3>>, <<"frac", 3>>, <<"sub", 1, 2>>, <<"simplify", 8>>, <<"frac", 8>> >>]

\* names that differ little
SimTexts == << "a", "A", "aa", "ab", "aB", "a1", "a2", "a10", "a_1", "a_2", "a_{12}", "a_{123}", "a_{124}", "a_{1234}", "a_{12345}", "a_b", "a_{bc}", "a_{bcd}", "a_{bce}", "a_{bcde}", "a_{Bc}", "ab_c", "abcdefgh", "abcdefgi", "abcdefghi", "abcdefgh_1", "alpha", "Alpha", "alpha_1", "alphb", "beta" >>
SimNames == [i \in 1..(2 * Len(SimTexts)) |-> IF i <= Len(SimTexts) THEN S(SimTexts[i]) ELSE Pos(SimTexts[i - Len(SimTexts)])]
NamePair(id) == LET n == Len(SimNames)
                    w == 11
                    other(i) == SimNames[1 + ((id[1] + (id[2] * w) + i - 1) % n)]
                    call(i, j) == LET m == (w + 2) + (4 * (i - 1))
                                  IN  CASE j = 1 -> <<"eq", 1, i + 1>> [] j = 2 -> <<"add", 1, i + 1>> [] j = 3 -> <<"add", i + 1, 1>> [] j = 4 -> <<"eq", m, m + 1>>
                                        [] j = 5 -> <<"mul", 1, i + 1>> [] j = 6 -> <<"mul", i + 1, 1>> [] j = 7 -> <<"eq", m + 2, m + 3>> [] OTHER -> <<"eq", m, m + 2>>
                IN  [load |-> <<SimNames[id[1]]>> \o [i \in 1..w |-> other(i)], do |-> [i \in 1..(8 * w) |-> call(1 + ((i - 1) \div 8), 1 + ((i - 1) % 8))]]

MixPool == << a, x, Sq(a), Sq(x), Sq(I(2)), Ad(I(1), Sq(I(2))), Ad(I(1), Sq(x)), Su(Sq(a), I(1)), Sq(Ad(a, b)), Po(a, Q(-1, 2)), Po(x, Q(2, 3)), Po(a, b), Po(x, Mu(I(2), b)), Po(I(2), a), Fn("sin", a), Fn("cos", a), Fn("tan", a), Po(Fn("sin", a), I(2)), Po(Fn("cos", a), I(2)), Fn("log", x), Fn("log", Po(x, I(2))), Mu(I(2), Fn("log", a)), Pi, Fn("sin", Di(Ad(Mu(a, b), a), Ad(b, I(1)))),
              Fn("sin", Ad(a, b)), Ad(Fn("sin", a), I(1)), Di(I(1), Fn("cos", a)), Po(Ad(I(1), x), half), Sq(Di(Su(Po(a, I(2)), I(1)), Ad(a, I(1)))), Di(I(1), Ad(I(1), Sq(I(3)))), Po(Euler, a), Sq(Mu(x, y)), Po(Ad(Po(a, I(2)), Ad(Mu(I(2), Mu(a, b)), Po(b, I(2)))), half), Fn("atan", a) >>
Mix2(id) == [load |-> <<MixPool[id[1]], MixPool[id[2]]>>,
             do |-> << <<"add", 1, 2>>, <<"mul", 1, 2>>, <<"div", 1, 2>>, <<"simplify", 3>>, <<"simplify", 4>>, <<"simplify", 5>>, <<"normal", 3>>, <<"normal", 4>>, <<"normal", 5>>, <<"frac", 3>>, <<"frac", 5>>, <<"div", 5, 3>>, <<"simplify", 16>>, <<"normal", 16>>, <<"frac", 16>>,
                       <<"sub", 16, 1>>, <<"simplify", 21>>, <<"normal", 21>>, <<"simpcx", 3>>, <<"simpcx", 4>>, <<"simpcx", 16>>, <<"simpcx", 21>> >>]

-----------------------------------------------------------------------------
(* Polynomials *)

GcdPool == << a, Ad(a, b), Su(a, b), Ad(I(1), a), Su(Mu(I(2), a), I(3)), Mu(a, b), Ad(Po(a, I(2)), b), Ad(Po(a, I(2)), I(1)), Mu(Q(2, 3), c), Ad(Ad(a, b), c), Ad(Mu(half, a), Q(1, 3)), Su(Po(a, I(3)), Mu(I(2), b)), Ad(Mu(a, b), Mu(I(-1), c)), I(6), Ad(Ad(Mu(Po(a, I(2)), b), Mu(I(3), Mu(a, Po(b, I(2))))), I(1)), Po(Su(a, I(1)), I(2)) >>
Poly3(id) == [load |-> <<GcdPool[id[1]], GcdPool[id[2]], GcdPool[id[3]], a, b>>,
              do |-> << <<"mul", 1, 3>>, <<"expand", 6>>, <<"mul", 2, 3>>, <<"expand", 8>>, <<"gcd", 7, 9>>, <<"divide", 7, 3>>, <<"add", 7, 2>>, <<"expand", 14>>, <<"divide", 15, 3>>, <<"gcd", 15, 3>>, <<"gcd", 1, 2>>, <<"divide", 7, 9>>, <<"gcd", 7, 3>>,
                        <<"ldivide", 7, 3, 4, 5>>, <<"ldivide", 7, 3, 5, 4>>, <<"ldivide", 15, 3, 4, 5>>, <<"ldivide", 15, 3, 5, 4>> >>]
\* polynomials with larger integer coefficients
BigInts == << 2000006, 6000018, 1048576, 3000000, 1999998, 3000009, 7654320, 9699690, 12, 1 >>
SlimPolys == << I(1), a, Ad(Mu(I(3), a), b), Su(Mu(a, b), Mu(I(2), a)), Ad(Po(a, I(2)), I(5)) >>
BigCoeffs(id) == [load |-> <<I(BigInts[id[1]]), I(BigInts[id[2]]), SlimPolys[id[3]], Ad(Mu(a, b), Mu(I(3), a)), Ad(Mu(I(3), a), b), Ad(b, I(1))>>,
                  do |-> << <<"gcd", 1, 2>>, <<"mul", 1, 3>>, <<"mul", 9, 4>>, <<"expand", 10>>, <<"mul", 2, 5>>, <<"mul", 12, 3>>, <<"expand", 13>>, <<"gcd", 11, 14>>, <<"gcd", 14, 11>>, <<"gcd", 11, 2>>, <<"gcd", 1, 14>>, <<"divide", 14, 5>>, <<"div", 11, 14>>, <<"normal", 25>>, <<"frac", 25>>,
                            <<"mul", 2, 6>>, <<"add", 11, 29>>, <<"expand", 30>>, <<"gcd", 31, 14>>, <<"poly", 31, 3>>, <<"div", 14, 31>>, <<"normal", 34>>, <<"simplify", 34>> >>]
Poly1(id) == [load |-> <<GcdPool[id[1]], GcdPool[id[2]], I(0), I(4), Q(1, 2)>>,
              do |-> << <<"mul", 1, 2>>, <<"mul", 6, 1>>, <<"expand", 6>>, <<"expand", 7>>, <<"gcd", 8, 9>>, <<"gcd", 9, 8>>, <<"gcd", 3, 8>>, <<"gcd", 6, 7>>, <<"divide", 9, 8>>, <<"divide", 3, 8>>, <<"gcd", 8, 8>>, <<"divide", 8, 4>>, <<"divide", 5, 4>>, <<"gcd", 8, 4>>, <<"gcd", 4, 5>>, <<"mul", 9, 1>>, <<"expand", 32>>, <<"gcd", 33, 9>>, <<"divide", 33, 8>> >>]

\* polynomials in one of their symbols: pseudo-division of all pairs, with and without a remainder
PseudoPool == GcdPool \o << Ad(Mu(b, a), I(3)), Ad(Po(a, I(6)), Ad(Mu(a, b), b)), Su(Mu(I(2), Mu(Po(a, I(3)), b)), Ad(Mu(I(2), a), I(3))), Ad(Mu(c, Po(b, I(2))), Mu(a, b)), Ad(Mu(Mu(I(6), a), b), Mu(I(9), Mu(Po(a, I(2)), c))), Mu(Q(-3, 2), Mu(Po(a, I(4)), b)) >>
Pseudo2(id) == [load |-> <<PseudoPool[id[1]], PseudoPool[id[2]], a, b, c>>,
                do |-> << <<"expand", 1>>, <<"expand", 2>>, <<"mul", 1, 2>>, <<"expand", 8>>, <<"pdivide", 6, 7, 3>>, <<"pdivide", 6, 7, 4>>, <<"pdivide", 9, 7, 3>>, <<"pdivide", 9, 7, 4>>, <<"pdivide", 9, 7, 5>>, <<"add", 9, 4>>, <<"pdivide", 20, 6, 3>>, <<"mul", 9, 6>>, <<"expand", 23>>, <<"pdivide", 24, 7, 3>>,
                          <<"poly", 6, 3>>, <<"poly", 7, 4>>, <<"poly", 9, 3>>, <<"poly", 9, 4>>, <<"poly", 9, 5>>, <<"poly", 20, 3>>, <<"poly", 24, 3>>, <<"poly", 24, 4>> >>]

-----------------------------------------------------------------------------
(* Substitution and differentiation *)

SubstFrom == << a, b, x, Po(a, I(2)), Ad(a, b), Fn("sin", a), I(2), Pi, Mu(a, b), Sq(a) >>
SubstTo == << I(0), I(1), I(-2), b, c, Ad(b, c), Mu(I(2), a), Q(1, 2), Sq(I(2)), Pi, Po(y, I(2)), Ne(y), Fn("cos", y) >>
SubstPool == All \o << Mu(Mu(a, b), c), Ad(Ad(Mu(a, b), Po(a, I(2))), Fn("sin", Ad(a, Mu(b, x)))), Di(Ad(a, I(1)), Su(a, b)), Po(Ad(a, Mu(x, b)), Ad(a, I(1))), Fn("sin", Fn("cos", Mu(a, b))), Fn("log", Ad(Po(a, I(2)), I(1))), <<"atan2", a, b>>, <<"atan2", Ad(a, I(1)), x>> >>
SubstSession(id) ==
    [load |-> <<SubstPool[id[1]], SubstFrom[id[2]]>> \o SubstTo,
     do |-> Cat(LAMBDA i : << <<"subst", 1, 2, i + 2>> >>, 1, Len(SubstTo)) \o << <<"subst", 1, 2, 2>>, <<"has", 1, 2>> >>]

\* every kind of node with the symbol in any of its operands
SubstIn == << a, Ad(a, I(1)), Mu(a, b), b, Fn("sin", a), Po(a, I(2)), I(2), x, Sq(a), Po(b, a), Ne(a), Ad(a, b) >>
SubstPos(id) ==
    LET u == SubstIn[id[1]]
        v == SubstIn[id[2]]
    IN  [load |-> << a, c, I(0), I(-1), Ad(b, c), Po(y, I(2)), Mu(a, b), Ad(u, v), Mu(u, v), Di(u, v), Po(u, v), <<"atan2", u, v>>, Fn("cos", Mu(u, v)), Po(Ad(u, v), half), Fn("log", Ad(Po(u, I(2)), v)), Ad(Fn("tan", u), Po(v, I(-2))), Fn("acos", Di(u, v)) >>,
         do |-> Cat(LAMBDA i : << <<"subst", 7 + i, 1, 2>>, <<"subst", 7 + i, 1, 3>>, <<"subst", 7 + i, 1, 4>>, <<"subst", 7 + i, 1, 5>>, <<"subst", 7 + i, 1, 6>>, <<"subst", 7 + i, 1, 7>>, <<"subst", 7 + i, 7, 2>> >>, 1, 10)]

DiffInner == << a, Mu(I(2), a), Po(a, I(2)), Ad(a, b), Mu(a, b), Di(I(1), a), Sq(a), Po(a, I(-2)), Ad(Po(a, I(2)), I(1)), Fn("sin", a), Fn("log", a), Po(a, b), Po(I(2), a), Po(Ad(a, b), I(3)), Di(a, Ad(a, b)), Fn("atan", a), Mu(a, Fn("cos", a)), Po(Ad(I(1), Po(a, I(2))), half), Po(a, Q(2, 3)), Po(a, a), Ne(a), Di(a, I(3)), Po(Euler, a), Po(b, Po(a, I(2))) >>
Fs == << "sin", "cos", "tan", "asin", "acos", "atan", "log", "sqrt" >>
DiffSession(id) == \* compositions, products and quotients of two inner functions
    LET t == DiffInner[id[1]]
        u == DiffInner[id[2]]
    IN  [load |-> <<t, u, a, b, c>>,
         do |-> << <<"add", 1, 2>>, <<"diff", 6, 3>>, <<"mul", 1, 2>>, <<"diff", 8, 3>>, <<"div", 1, 2>>, <<"diff", 10, 3>>, <<"diff", 10, 4>>, <<"pow", 1, 2>>, <<"diff", 13, 3>>, <<"diff", 13, 4>>, <<"subst", 1, 3, 2>>, <<"diff", 16, 3>>, <<"diff", 1, 5>>, <<"diff", 8, 4>>, <<"diff", 1, 2>>, <<"diff", 9, 3>> >>]
DiffFct(id) ==
    LET t == DiffInner[id[1]]
    IN  [load |-> <<a, b, Fn(Fs[id[2]], t), Mu(a, Fn(Fs[id[2]], t)), Po(Fn(Fs[id[2]], t), I(-2)), Di(b, Fn(Fs[id[2]], t))>>,
         do |-> Cat(LAMBDA i : << <<"diff", i + 2, 1>>, <<"diff", i + 2, 2>> >>, 1, 4) \o << <<"diff", 7, 1>>, <<"diff", 7, 2>> >>]
DiffAll(id) == [load |-> <<All[id[1]], a, b, x, c, Pos("a"), I(2), Ad(a, b), Pi, Fn("sin", a), Po(a, I(2))>>, do |-> Cat(LAMBDA i : << <<"diff", 1, i + 1>> >>, 1, 10)]

-----------------------------------------------------------------------------
(* Functions *)

PiPart(k, n) == Mu(Q(k, n), Pi)
TrigDenoms == << 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 24 >>
Trig(id) == \* sin, cos, tan of k*pi/n, shifted and through the inverse functions
    LET n == TrigDenoms[id[1]]
        t == PiPart(id[2], n)
    IN  [load |-> <<t, Ad(t, a), Su(Fn("sin", a), t)>>,
         do |-> << <<"sin", 1>>, <<"cos", 1>>, <<"tan", 1>>, <<"asin", 4>>, <<"acos", 4>>, <<"acos", 5>>, <<"atan", 6>>, <<"asin", 5>>, <<"sin", 2>>, <<"cos", 2>>, <<"tan", 2>>, <<"neg", 1>>, <<"sin", 15>>, <<"cos", 15>>, <<"tan", 15>>, <<"atan2", 4, 5>>, <<"atan2", 5, 4>>, <<"mul", 4, 5>>, <<"div", 4, 5>>, <<"todouble", 4>>, <<"todouble", 6>>, <<"log", 4>>, <<"sign", 4>>, <<"sign", 6>> >>]
InvArgs == << I(0), I(1), I(-1), half, Q(-1, 2), Di(Sq(I(2)), I(2)), Ne(Di(Sq(I(2)), I(2))), Di(Sq(I(3)), I(2)), Ne(Di(Sq(I(3)), I(2))), Sq(I(3)), Ne(Sq(I(3))), Di(Sq(I(3)), I(3)), Ne(Di(Sq(I(3)), I(3))), Q(1, 3), Q(-2, 3), I(2), I(-5), Sq(I(2)), Di(Su(Sq(I(5)), I(1)), I(4)), Di(Ad(Sq(I(5)), I(1)), I(4)), Di(Su(I(1), Sq(I(5))), I(4)), Su(Sq(I(2)), I(1)), Ad(I(1), Sq(I(2))), Su(I(2), Sq(I(3))), Ad(I(2), Sq(I(3))), Su(Sq(I(3)), I(2)), Q(9, 10), Q(-11, 10),
             Su(I(1), Sq(I(2))), Di(Pi, I(4)), Di(Pi, I(3)), Pi, Sq(half), Di(Sq(I(6)), I(4)), Di(Ad(Sq(I(2)), Sq(I(6))), I(4)), Di(Su(Sq(I(6)), Sq(I(2))), I(4)), Fn("log", I(2)), Fn("log", I(3)), Euler, Di(I(1), Euler), Fn("sin", I(1)), Fn("sin", I(2)), Fn("cos", I(4)),
             Sq(Su(Q(5, 8), Mu(Q(1, 8), Sq(I(5))))), Sq(Ad(Q(5, 8), Mu(Q(1, 8), Sq(I(5))))), Sq(Su(I(5), Mu(I(2), Sq(I(5))))), Sq(Su(I(1), Di(I(2), Sq(I(5))))), I(7), I(-4), Q(22, 7), Dbl("0.3456789"), Dbl("-1.2345"), Dbl("-0.99999"), Ad(I(3), Pi), Mu(I(-1), Sq(I(7))), Po(I(2), Q(1, 3)), Po(I(2), Q(-1, 3)) >>
Fns == << "sin", "cos", "tan", "asin", "acos", "atan", "log", "sqrt" >>
Compose(id) == [load |-> <<InvArgs[id[1]]>>, do |-> Cat(LAMBDA f : << <<Fns[f], 1>> >> \o Cat(LAMBDA g : << <<Fns[g], 2 + 9 * (f - 1)>> >>, 1, 8), 1, 8) \o << <<"sign", 1>>, <<"neg", 1>> >>]
SymArgs == << a, x, Ne(a), Ne(x), Mu(I(2), a), Ad(a, b), Su(b, a), Su(I(1), a), Su(a, I(1)), Ad(a, Pi), Su(Pi, a), Ad(a, Mu(I(2), Pi)), Su(Di(Pi, I(2)), a), Ad(a, Di(Pi, I(2))), Mu(Pi, a), Po(a, I(2)), Po(x, I(2)), Po(a, I(3)), Sq(a), Sq(x), Mu(x, y), Di(x, y), Po(x, b), Po(a, b), Po(Euler, a), Po(Euler, x), Mu(I(2), x), Mu(Sq(I(2)), a), Di(I(1), a), Di(I(1), x), Su(Mu(I(-1), a), b), Po(I(2), a),
             Fn("sin", a), Ne(Fn("sin", a)), Fn("cos", a), Fn("atan", a), Mu(I(2), Fn("asin", a)), Fn("log", x), Mu(I(3), Fn("log", x)), Ne(Fn("log", x)), Ad(I(1), Fn("log", x)), Po(Mu(x, y), Q(1, 3)), Mu(half, Fn("acos", a)), Sq(Su(I(1), Po(a, I(2)))), Mu(I(5), Mu(x, Po(y, I(-2)))), Ne(Mu(x, Fn("sin", a))), Su(Mu(I(-2), x), Mu(I(3), y)) >>
ComposeSym(id) == [load |-> <<SymArgs[id[1]], Euler>>, do |-> Cat(LAMBDA f : << <<Fns[f], 1>> >> \o Cat(LAMBDA g : << <<Fns[g], 3 + 9 * (f - 1)>> >>, 1, 8), 1, 8) \o << <<"pow", 2, 57>>, <<"pow", 2, 1>>, <<"log", 76>>, <<"neg", 1>>, <<"sin", 78>>, <<"cos", 78>>, <<"tan", 78>>, <<"asin", 78>>, <<"acos", 78>>, <<"atan", 78>> >>]
AtanArgs == << I(0), I(1), I(-1), Sq(I(3)), Ne(Sq(I(3))), I(2), I(-3), Q(1, 2), Sq(I(2)), Di(Sq(I(3)), I(3)), Pi, Ne(Pi), a, Ne(a), x, Ne(x), Mu(I(2), x), Mu(I(-2), a), Ad(x, y), Su(I(0), Ad(x, y)), Su(a, I(1)), Fn("log", I(2)), Dbl("0.7071234"), Su(I(2), Sq(I(3))), Su(Sq(I(2)), I(1)), Mu(I(2), Sq(I(3))), Fn("sin", a), Mu(x, Sq(I(3))) >>
Atan2Calls(i, j) == << <<"atan2", i, j>>, <<"atan2", j, i>> >>

LogArgs == << I(1), I(2), I(4), I(6), I(12), half, Q(2, 3), Q(9, 4), Euler, Po(Euler, I(3)), Sq(I(2)), Po(I(3), Q(-2, 3)), x, y, a, Po(x, I(2)), Po(a, I(2)), Po(x, b), Po(I(2), a), Sq(Mu(x, y)), Ad(x, y), Pi, Mu(I(3), Sq(I(2))), Ad(I(1), Sq(I(2))), Po(Euler, a), Fn("sin", I(1)), Po(Mu(x, y), b), Po(x, Q(-1, 3)), Po(Ad(x, y), I(2)), Po(Ad(I(1), x), Q(3, 2)) >>
LogCalls(i, j) == << <<"mul", i, j>>, <<"div", i, j>> >>
Log2(id) == [load |-> <<LogArgs[id[1]], LogArgs[id[2]], I(3), Euler>>,
             do |-> << <<"mul", 1, 2>>, <<"div", 1, 2>>, <<"log", 5>>, <<"log", 6>>, <<"log", 1>>, <<"log", 2>>, <<"add", 9, 10>>, <<"sub", 9, 10>>, <<"sub", 7, 11>>, <<"mul", 3, 9>>, <<"pow", 4, 14>>, <<"pow", 4, 11>>, <<"mul", 9, 2>>, <<"pow", 4, 17>>, <<"pow", 1, 10>>, <<"log", 19>>, <<"div", 9, 10>>, <<"pow", 2, 21>>, <<"sign", 9>> >>]

-----------------------------------------------------------------------------
(* Numbers *)

BigPool == << I(0), I(1), I(-1), I(2), I(-7), I(46337), I(2147483647), I(-2147483647), Q(1, 2147483647), Q(-3, 7), Q(22, 7), Big("2147483648"), Big("4294967296"), Big("9007199254740991"), Big("9007199254740993"), Ne(Big("9223372036854775807")), Big("9223372036854775808"), Big("18446744073709551616"), Big("12345678901234567890123"), Ne(Big("12345678901234567890124")),
             Di(Big("9007199254740993"), Big("9007199254740992")), Di(I(1), Big("12345678901234567890123")), Di(Big("100000000000000000000000000000"), Big("99999999999999999999999999999")), Po(I(2), I(100)), Po(I(3), I(70)), Po(I(10), I(40)), Ad(Po(I(10), I(40)), I(1)), Po(Q(2, 3), I(60)), Ne(Di(Po(I(2), I(90)), Po(I(3), I(50)))), Po(I(10), I(320)), Di(I(1), Po(I(10), I(320))), Di(Ad(Po(I(10), I(320)), I(1)), Po(I(10), I(320))), Q(99999, 100000), Q(100000, 99999), I(1000000), Big("720720720720720720720"), Q(-720720, 1001) >>
Num2(id) == [load |-> <<BigPool[id[1]], BigPool[id[2]]>>,
             do |-> ArithCalls(1, 2) \o << <<"eq", 1, 2>>, <<"sign", 3>>, <<"sign", 4>>, <<"sign", 6>>, <<"iadd", 1, 2>>, <<"isub", 4, 2>>, <<"add", 4, 2>>, <<"eq", 9, 1>>, <<"mul", 6, 2>>, <<"eq", 10, 1>>, <<"todouble", 6>>, <<"toint", 3>>, <<"toint", 4>>, <<"ncmp", 1, 2>>, <<"ncmp", 2, 1>>, <<"ncmp", 4, 1>>, <<"ncmp", 6, 2>> >>]
\* neighbours of small and large numbers, closer than doubles can tell
Anchors == << I(0), I(1), Q(22, 7), I(2147483647), Big("4503599627370496"), Big("9007199254740992"), Big("9007199254740993"), Big("9223372036854775807"), Big("18446744073709551615"), Big("100000000000000000000"), Po(I(3), I(70)), Po(I(10), I(40)), Di(Big("9007199254740993"), I(4)), Di(I(1), Big("18446744073709551616")), Di(Po(I(2), I(80)), Po(I(3), I(50))) >>
Distances == << I(1), I(2), Q(1, 3), Di(I(1), Big("9007199254740992")), Di(I(1), Big("10000000000000000000000000")), Dbl("0.5") >>
NumCmp(id) ==
    LET w == IF id[3] = 1 THEN Anchors[id[1]] ELSE Ne(Anchors[id[1]])
    IN  [load |-> << w, Distances[id[2]], I(1) >>,
         do |-> << <<"add", 1, 2>>, <<"sub", 1, 2>>, <<"sub", 4, 2>>, <<"add", 4, 2>>, <<"neg", 4>>, <<"div", 3, 4>>, <<"div", 3, 5>>, <<"mul", 4, 5>>, <<"mul", 1, 1>> >>
                \o Cat(LAMBDA i : Cat(LAMBDA j : << <<"ncmp", i, j>>, <<"eq", i, j>> >>, i, 12), 1, 12)
                \o Cat(LAMBDA i : << <<"sign", i>>, <<"ncmp", 12, i>>, <<"ncmp", 4, i>> >>, 1, 12)]
\* ... and within expressions
AnchorTerm(k, w) == CASE k = 1 -> Po(a, w) [] k = 2 -> Fn("sin", w) [] k = 3 -> Po(Ad(a, w), half) [] k = 4 -> Fn("log", Ad(a, w)) [] k = 5 -> Po(Ad(a, w), I(2)) [] k = 6 -> Mu(b, Ad(a, w)) [] k = 7 -> Po(x, w)
                      [] k = 8 -> Fn("atan", Mu(w, a)) [] OTHER -> Po(Ad(Mu(w, a), b), I(-1))
NumOrder(id) ==
    LET w == IF id[3] = 1 THEN Anchors[id[1]] ELSE Ne(Anchors[id[1]])
        v == Distances[id[4]]
    IN  [load |-> << AnchorTerm(id[2], w), AnchorTerm(id[2], Ad(w, v)), AnchorTerm(id[2], Su(w, v)), c >>,
         do |-> << <<"add", 1, 2>>, <<"add", 2, 1>>, <<"eq", 5, 6>>, <<"add", 5, 3>>, <<"add", 3, 2>>, <<"add", 8, 1>>, <<"eq", 7, 9>>, <<"rebuild", 7, 2, 1>>, <<"add", 3, 5>>, <<"eq", 7, 11>>, <<"eq", 1, 2>>, <<"eq", 2, 3>>, <<"sub", 7, 2>>, <<"add", 1, 3>>, <<"eq", 12, 13>>,
                   <<"mul", 1, 2>>, <<"mul", 2, 1>>, <<"eq", 14, 15>>, <<"mul", 14, 3>>, <<"mul", 3, 2>>, <<"mul", 17, 1>>, <<"eq", 16, 18>>, <<"rebuild", 16, 2, 1>>, <<"mul", 4, 7>>, <<"mul", 7, 4>>, <<"eq", 20, 21>> >>]
NumExp == << I(0), I(1), I(2), I(-1), I(-2), I(3), I(7), I(-5), I(12), I(31), I(-32), I(64) >>
NumPowCalls(i, j) == << <<"pow", i, j>> >>
\* roots of perfect powers
RootBases == << I(2), I(3), I(6), I(7), I(12), Q(2, 3), Q(5, 7), I(10), I(97), I(1009), Big("1000003"), Q(1, 2), I(-2), I(-3), Q(-3, 5), Big("65537"), Q(1009, 1013), I(36), I(999) >>
Perfect(id) == [load |-> <<RootBases[id[1]], I(id[2]), Q(1, id[2]), Q(2, id[2]), Q(-1, id[2]), Q(1, 2 * id[2])>>, do |-> << <<"pow", 1, 2>>, <<"pow", 7, 3>>, <<"eq", 8, 1>>, <<"pow", 7, 4>>, <<"pow", 7, 5>>, <<"pow", 7, 6>>, <<"sqrt", 7>>, <<"mul", 1, 7>>, <<"pow", 13, 3>> >>]

\* small fractions: all pairs
FracPool == [i \in 1..(IF Thorough THEN 120 ELSE 60) |-> Q((i % 13) - 6, (i % 8) + 1)]

-----------------------------------------------------------------------------
(* Signs *)

SignPool == Numbers \o Roots \o Constants \o << a, x, Ne(x), Ne(a), Mu(I(2), x), Mu(I(-2), x), Mu(x, y), Ne(Mu(x, y)), Ad(x, y), Ad(I(1), x), Su(I(0), Ad(x, y)), Su(x, y), Su(x, I(1)), Su(I(-1), x), Po(a, I(2)), Po(a, I(-2)), Po(a, I(3)), Po(x, I(3)), Sq(a), Sq(x), Ne(Sq(x)), Po(x, Q(-2, 3)), Po(a, Q(2, 3)), Po(x, a), Po(a, x), Po(I(2), a), Po(Euler, a), Ne(Po(I(3), b)), Po(Ad(a, b), I(2)), Po(Ad(I(1), Po(a, I(2))), half),
               Fn("sin", a), Fn("cos", x), Fn("tan", x), Fn("asin", x), Fn("acos", a), Fn("atan", x), Fn("atan", Ne(x)), Fn("asin", a), Fn("log", x), Fn("log", Ad(I(1), x)), Fn("log", I(2)), Fn("log", half), Fn("sin", I(4)), Fn("cos", I(2)), Fn("tan", I(2)), Fn("acos", x), Po(Fn("sin", a), I(2)), Po(Fn("log", x), I(-2)), Su(Sq(I(2)), Sq(I(3))), Su(I(3), Pi), Su(Euler, I(3)), Mu(Pi, x), <<"atan2", x, y>>, <<"atan2", a, x>>, Ad(Po(a, I(2)), I(1)), Su(Po(a, I(2)), I(1)), Ad(Sq(x), Po(y, I(2))), Dbl("-0.5678"), Dbl("3.21"), Fn("log", Ad(I(2), Po(a, I(2)))), Po(Ne(x), I(3)), Po(Ne(x), I(-1)), Po(Ne(Ad(x, y)), I(2)), Po(Mu(a, b), I(2)), Su(Su(I(0), x), Po(y, I(2))) >>
SignCalls(i, j) == << <<"sign", i>>, <<"sign", j>> >>
Sign2(id) == [load |-> <<SignPool[id[1]], SignPool[id[2]]>>, do |-> << <<"add", 1, 2>>, <<"sign", 3>>, <<"sub", 1, 2>>, <<"sign", 4>>, <<"mul", 1, 2>>, <<"sign", 5>>, <<"div", 1, 2>>, <<"sign", 6>>, <<"pow", 1, 2>>, <<"sign", 7>>, <<"neg", 5>>, <<"sign", 8>> >>]
\* functions of sums, products, quotients and powers
SignParts == << I(2), I(-3), half, Q(3, 2), a, x, y, Ne(x), Sq(x), Po(a, I(2)), Po(x, I(2)), Po(x, I(-1)), Po(x, a), Po(I(2), a), Pi, Sq(I(2)), Fn("sin", a), Fn("log", x), Fn("atan", x), Ad(I(1), x), Ad(I(1), Po(a, I(2))), Ad(x, y), Su(x, y), Fn("acos", a), Po(x, Q(-2, 3)), Euler >>
SignOps == << "add", "sub", "mul", "div", "pow" >>
SignOf(id) == [load |-> <<SignParts[id[1]], SignParts[id[2]]>>,
               do |-> Cat(LAMBDA o : LET m == 2 + (9 * (o - 1)) IN << <<SignOps[o], 1, 2>>, <<"sign", m + 1>> >> \o Cat(LAMBDA f : << <<Fns[f], m + 1>>, <<"sign", m + 1 + f>> >>, 1, 8), 1, 5)]
\* ... and calls(r) for each of them in register r, which make w registers
OfSession(id, w, calls(_)) ==
    [load |-> <<SignParts[id[1]], SignParts[id[2]], a, x, Ad(b, I(1))>>,
     do |-> Cat(LAMBDA o : LET m == 6 + ((o - 1) * 9 * (1 + w))
                           IN  << <<SignOps[o], 1, 2>> >> \o calls(m) \o Cat(LAMBDA f : << <<Fns[f], m>> >> \o calls(m + (f * (1 + w))), 1, 8), 1, 5)]
DiffCalls(r) == << <<"diff", r, 3>>, <<"diff", r, 4>> >>
SubstCalls(r) == << <<"subst", r, 3, 5>>, <<"subst", r, 4, 1>> >>
SimpCalls(r) == << <<"simplify", r>>, <<"expand", r>>, <<"frac", r>> >>
TextCalls(r) == << <<"roundtrip", r>>, <<"stream", r>>, <<"query", r>>, <<"has", r, 3>>, <<"complexity", r>> >>
OfPairs == LET n == Len(SignParts) IN {p \in (1..n) \X (1..n) : Thorough \/ ((p[1] + (3 * p[2])) % 4) = 0}
SignFct(id) == [load |-> <<SignPool[id[1]]>>, do |-> << <<"sign", 1>> >> \o Cat(LAMBDA f : << <<Fns[f], 1>>, <<"sign", 1 + f>> >>, 1, 8) \o << <<"neg", 1>>, <<"sign", 10>> >> \o Cat(LAMBDA f : << <<Fns[f], 10>>, <<"sign", 10 + f>> >>, 1, 8)]

-----------------------------------------------------------------------------
(* Conversions *)

NumericPool == Numbers \o Roots \o Constants \o << Fn("log", I(2)), Fn("log", Q(2, 3)), Fn("sin", I(1)), Fn("cos", I(3)), Fn("tan", I(4)), Fn("asin", Q(1, 3)), Fn("acos", Q(-2, 5)), Fn("atan", I(-7)), <<"atan2", I(1), I(3)>>, Po(I(2), Sq(I(2))), Po(Pi, Euler), Po(I(2), Pi), Fn("sin", Sq(I(2))), Po(Fn("log", I(3)), Q(-1, 2)), Ad(Pi, Fn("log", I(5))), Mu(Fn("sin", I(1)), Fn("cos", I(1))), Po(Ad(I(1), Sq(I(2))), Q(1, 3)), Dbl("0.3333"), Dbl("-17.25"), Dbl("1e10"), Dbl("2.0"), Dbl("123456789.123"), Big("12345678901234567890123"), Po(I(10), I(300)), Di(I(1), Po(I(10), I(300))), Fn("sin", I(100)), Fn("log", Po(I(10), I(30))), Po(Euler, Q(5, 2)), Su(Pi, Q(22, 7)), Fn("atan", Di(I(1), I(1000))) >>
ConvCalls(i, j) == << <<"add", i, j>>, <<"mul", i, j>>, <<"div", i, j>> >>
Conv2(id) == [load |-> <<NumericPool[id[1]], NumericPool[id[2]]>>, do |-> << <<"todouble", 1>>, <<"toint", 1>>, <<"add", 1, 2>>, <<"todouble", 3>>, <<"toint", 3>>, <<"mul", 1, 2>>, <<"todouble", 4>>, <<"toint", 4>>, <<"div", 1, 2>>, <<"todouble", 5>>, <<"sub", 1, 2>>, <<"todouble", 6>>, <<"sin", 3>>, <<"todouble", 7>>, <<"atan", 5>>, <<"todouble", 8>>, <<"neg", 4>>, <<"todouble", 9>>, <<"toint", 9>> >>]
ConvInts == << I(0), I(5), I(-5), I(46341), I(2147483647), Ne(I(2147483647)), Big("2147483648"), Ne(Big("2147483648")), Ne(Big("2147483649")), Big("4294967296"), Big("4294967297"), Big("9223372036854775807"), Big("9223372036854775808"), Big("18446744073709551617"), Ne(Big("18446744073709551615")), Q(1, 2), Q(-7, 3), Po(I(2), I(40)), Sq(I(2)), Pi, a, Ad(a, I(1)), Sq(I(4)), Dbl("0.5"), Dbl("1.25e9"), Big("12345678901234567890123") >>
ConvCall1(i) == << <<"todouble", i>>, <<"toint", i>> >>

-----------------------------------------------------------------------------
(* Printing *)

PrintPool == Numbers \o Roots \o << Pi, Di(Pi, I(3)) >> \o Monomials \o RootTerms \o SymPowers \o Sums \o SumPowers \o Fcts \o FctPowers
PrintSession(id) ==
    LET ch == ChunkOf(PrintPool, 8, id[2])
        n == Len(ch)
    IN  [load |-> <<PrintPool[id[1]]>> \o ch,
         do |-> Cat(LAMBDA i : LET m == n + 1 + (i - 1) * 8 IN << <<"add", 1, i + 1>>, <<"roundtrip", m + 1>>, <<"mul", 1, i + 1>>, <<"roundtrip", m + 3>>, <<"div", 1, i + 1>>, <<"roundtrip", m + 5>>, <<"pow", 1, i + 1>>, <<"roundtrip", m + 7>> >>, 1, n)]
Print1(id) == [load |-> <<PrintPool[id[1]], I(-1)>>, do |-> << <<"roundtrip", 1>>, <<"neg", 1>>, <<"roundtrip", 4>>, <<"mul", 2, 1>>, <<"sin", 1>>, <<"roundtrip", 7>>, <<"pow", 4, 2>>, <<"roundtrip", 9>>, <<"log", 1>>, <<"neg", 11>>, <<"roundtrip", 12>>, <<"pow", 12, 1>>, <<"roundtrip", 14>>, <<"sqrt", 4>>, <<"roundtrip", 16>> >>]

(* What print engines are told: names with and without subscripts, positive symbols, and everything above *)
StreamSyms == << S("alpha"), S("beta_1"), Pos("omega_{12}"), S("Gamma"), Pos("x_b"), S("pivot") >>
StreamPool == PrintPool \o StreamSyms \o << Euler, Und, Po(Pos("x_b"), Q(-3, 2)), Mu(Po(a, I(-1)), Po(Euler, Ne(b))), Di(I(1), Mu(a, Ad(a, b))), Dbl("1.23456789e-5"), Mu(Dbl("2.7182818"), a), Po(Dbl("1.2345678"), a), <<"atan2", Ne(a), Di(b, I(2))>>, Big("123456789012345678901234567890"), Di(Big("99999999999999999999"), I(7)) >>
StreamPairs == SubSeq(StreamPool, 1, Len(StreamPool) - 2) \* no exponents that exhaust the memory
StreamSession(id) ==
    LET ch == ChunkOf(StreamPairs, 8, id[2])
        n == Len(ch)
    IN  [load |-> <<StreamPairs[id[1]]>> \o ch,
         do |-> Cat(LAMBDA i : LET m == n + 1 + (i - 1) * 4 IN << <<"add", 1, i + 1>>, <<"stream", m + 1>>, <<"mul", 1, i + 1>>, <<"stream", m + 2>>, <<"div", 1, i + 1>>, <<"stream", m + 3>>, <<"pow", 1, i + 1>>, <<"stream", m + 4>> >>, 1, n)]
Stream1(id) == [load |-> <<StreamPool[id[1]], I(-1)>>, do |-> << <<"stream", 1>>, <<"neg", 1>>, <<"stream", 3>>, <<"sin", 1>>, <<"stream", 4>>, <<"pow", 3, 2>>, <<"stream", 5>>, <<"log", 1>>, <<"neg", 6>>, <<"stream", 7>>, <<"pow", 7, 1>>, <<"stream", 8>>, <<"sqrt", 3>>, <<"stream", 9>>, <<"neg", 9>>, <<"stream", 10>>, <<"atan2", 3, 1>>, <<"stream", 11>> >>]

\* Variables from texts
Greek == << "alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "my", "ny", "xi", "omikron", "pi", "rho", "sigma", "tau", "ypsilon", "phi", "chi", "psi", "omega",
            "Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lambda", "My", "Ny", "Xi", "Omikron", "Pi", "Rho", "Sigma", "Tau", "Ypsilon", "Phi", "Chi", "Psi", "Omega" >>
Words == Greek \o << "a", "Z", "x1", "abc", "e", "E", "pivot", "euler", "Euler", "eulerian", "PI", "pI", "p", "sin", "Sin", "sine", "cos", "tan", "asin", "acos", "atan", "atan2", "log", "log2", "sqrt", "sqrtx", "alphabet", "ALPHA", "etaa", "mY", "tmp1", "nan", "inf", "x0y1z2", "Undefined", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "1", "1a", "", "_", "a1_", "0x10", "007", "9" >>
Subs == << "", "_1", "_b", "_{1}", "_{12}", "_{abc}", "_12", "_", "_{}", "_{1", "_1}", "_{a_b}", "_1_2", "_{ 1}", "__1", "_{1}2", "_alpha", "_{alpha}", "_{A9z}" >>
NameSession(id) == [load |-> <<>>, do |-> Cat(LAMBDA p : Map(LAMBDA s : <<"vstr", p, Words[id[1]] \o s>>, Subs), 0, 1)]
Texts == << "0", "1", "-1", "+1", "--1", "- 1", " 1", "1 ", "12", "123", "1234", "12345", "0000", "00012", "-007", "2147483647", "2147483648", "-2147483649", "4294967296", "18446744073709551616", "123456789012345678901234567890123456789012345678901234567890", "-99999999999999999999999999", "100000000000000000000",
            "1.5", "1.0", "1.", ".5", "1e5", "1/2", "4/2", "1+1", "2*3", "2^10", "a+b", "a*b", "a^2", "a+0", "1*a", "a-a", "-a", "+a", "(a)", "((a))", "( a )", "(1)", " a", "a ", " a_1 ", "a _1", "a_ 1", "a b", "a,b", "a(b)", "sin(0)", "sin(a)", "pi", "Pi", "euler", "a'", "a!", "a$", "#", "a#", "a.b", "a[1]", "{a}", "a{1}", "a_{1}^{2}", "a^{2}", "a=1", "a;b", "\\xc3\\xa4", "a\\xc3\\xa4", "\\xce\\xb1", "a\\tb", "a\\nb", "%d", "%s", "%S%n", "()", "(", ")", "(a", "a)", "*", "/", "^", "-", "+", " ", "   ", "a^", "^a", "a/", "/a", "a**b", "a//b", "log(1)", "sqrt(4)", "sqrt(16)*a", "1 2", "1 a", "2a", "a2", "a 2" >>
TextSession(id) == [load |-> <<>>, do |-> << <<"vstr", 0, Texts[id[1]]>>, <<"vstr", 1, Texts[id[1]]>> >>]

-----------------------------------------------------------------------------
(* Parsing: all sequences of tokens up to a length.  A session holds all continuations of a prefix. *)

Tokens == << "a", "2", "+", "-", "*", "/", "^", "(", ")", "sin", ",", "1.5" >>
ParsePrefixLen == IF Thorough THEN 4 ELSE 3
Prefixes == UNION {[1..n -> 1..Len(Tokens)] : n \in 1..ParsePrefixLen}
Word(p) == [i \in 1..Len(p) |-> Tokens[p[i]]]
ParseSession(p) ==
    LET w == Word(p)
        line(u) == <<"ptok", 1>> \o u
    IN  [load |-> <<>>, do |-> <<line(w)>> \o (IF Len(p) < ParsePrefixLen THEN <<>>
                                               ELSE Map(LAMBDA t : line(Append(w, t)), Tokens) \o (IF w[1] \in {")", "*", "/", "^", ","} THEN <<>> ELSE Map(LAMBDA t : line(w \o <<t, "a">>), Tokens) \o Map(LAMBDA t : line(w \o <<t, ")">>), Tokens)))]
\* every scalar in every simple frame, with and without blanks
ScalarTokens == << "a", "b", "x", "y_1", "y_{12}", "sin", "pivot", "e", "0", "1", "2", "3", "10", "12", "1.5", ".5", "0.25", "2.", "pi", "Pi", "PI", "euler", "Euler", "atan2", "log", "sqrt" >>
Frames(t, u) == << <<t>>, <<"-", t>>, <<"+", t>>, <<t, "+", u>>, <<t, "-", u>>, <<t, "*", u>>, <<t, "/", u>>, <<t, "^", u>>, <<"(", t, ")">>, <<"sin", "(", t, ")">>, <<"log", "(", t, "+", u, ")">>, <<"-", t, "^", u>>, <<t, "^", "(", "-", u, ")">>, <<t, "-", u, "-", t>>, <<t, "/", u, "/", t>>, <<t, "^", u, "^", "2">>, <<t, "*", u, "+", t>>, <<t, "+", u, "*", t>>,
                   <<t, "*", "-", u>>, <<t, "-", "-", u>>, <<"atan2", "(", t, ",", u, ")">>, <<"(", t, "+", u, ")", "*", t>>, <<"sqrt", "(", t, ")", "^", u>>, <<"(", t, ")", "(", u, ")">>, <<t, u>>, <<t, "+">>, <<"*", t>>, <<"(", t>>, <<t, ")">>, <<"-", "-", t>>, <<"sin", t>>, <<"sin", "(", ")">>, <<"atan2", "(", t, ")">>, <<t, "^", "-", u>>, <<t, "**", u>>, <<"tan", "(", "-", t, "/", u, ")">> >>
\* longer numerals, names that start like functions and constants, functions in capital letters
MoreTokens == << "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "9999999999999999999", "18446744073709551616", "12345678901234567890", "340282366920938463463374607431768211456", "007", "0100", "0123456789", "00", "1000000", "3.75", "0.125", "12.5", "0.0001", ".0625", "100.5", "1.50",
                 "sine", "logx", "cosa", "tan1", "asinh", "atan3", "atan2a", "sqrt2", "pi2", "pi_1", "Pi_{12}", "epi", "euler1", "eulers", "e_1", "E", "pI", "EULER", "a_{b}", "a_B", "aB", "Ab_{1c2}", "a0", "SIN", "Log", "aTan2", "Sqrt", "ATAN", "y_{1}" >>
MorePartners == << "a", "2", "3", "1.5" >>
ParseMore(id) == LET fs == Frames(MoreTokens[id[1]], MorePartners[id[2]]) \o Frames(MorePartners[id[2]], MoreTokens[id[1]]) \o << <<MoreTokens[id[1]], "(", MorePartners[id[2]], ")">>, <<MoreTokens[id[1]], "(", "b", ",", MorePartners[id[2]], ")">>, <<"a", "+", MoreTokens[id[1]], "(", "b", ")", "^", "2">>, <<"-", MoreTokens[id[1]], "(", "x", "*", "y_1", ")">> >>
                 IN  [load |-> <<>>, do |-> Map(LAMBDA u : <<"ptok", 1>> \o u, fs) \o Map(LAMBDA u : <<"ptok", 0>> \o u, SubSeq(fs, 1, 23))]
ParseFrame(id) == LET fs == Frames(ScalarTokens[id[1]], ScalarTokens[id[2]])
                  IN  [load |-> <<>>, do |-> Map(LAMBDA u : <<"ptok", 1>> \o u, fs) \o Map(LAMBDA u : <<"ptok", 0>> \o u, SubSeq(fs, 1, 23))]

-----------------------------------------------------------------------------
(* Linear algebra *)

\* entries for exhaustive 2 x 2 matrices
HiddenZero == Su(Su(Po(Ad(a, b), I(2)), Mu(a, Ad(a, Mu(I(2), b)))), Po(b, I(2)))
Entries2 == << I(0), I(1), a, b, Ad(a, I(1)), HiddenZero >>
Ones(n) == [i \in 1..n |-> i]
Lin2(id) == [load |-> <<Entries2[id[1]], Entries2[id[2]], Entries2[id[3]], Entries2[id[4]], c, I(2)>>,
             do |-> Cat(LAMBDA al : << <<"det", 2, al - 1, (id[1] + al) % 2, -1, 1, 2, 3, 4>>, <<"solve", 2, al - 1, (id[2] + al) % 2, -1, 1, 2, 3, 4, 5, 6>>, <<"inv", 2, al - 1, (id[4] + al) % 2, -1, 1, 2, 3, 4>> >>, 1, 2)]
\* 3 x 3: all patterns of zeros, entries generic or numbers
Gen3 == << a, b, I(1), I(2), c, a, Ad(a, b), I(3), I(-2) >>
Lin3(p) == LET e == [i \in 1..9 |-> IF p[i] = 0 THEN 10 ELSE i]
               al == (p[1] + p[5] + p[9]) % 2
               m == <<e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9]>>
           IN  [load |-> Gen3 \o <<I(0), I(-1)>>, do |-> << <<"det", 3, 0, al, -1>> \o m, <<"det", 3, 1, al, -1>> \o m, <<"solve", 3, 0, 1 - al, -1>> \o m \o <<3, 1, 11>>, <<"inv", 3, 0, al, -1>> \o m, <<"solve", 3, 1, al, -1>> \o m \o <<2, 10, 4>>, <<"inv", 3, 1, al, -1>> \o m >>]
\* dependent rows: the third is a combination of the others
Lin3Sing(p) == LET f == p[1]
                   g == p[2]
                   r(i) == <<a, b, I(1), I(0), Ad(a, I(1))>>[((p[3] + i * p[4]) % 5) + 1]
                   u(i) == <<b, I(2), I(0), a, Mu(a, b)>>[((p[4] + i * p[3]) % 5) + 1]
                   co == <<I(0), I(1), a, I(-2)>>
                   t(i) == Ad(Mu(co[f], r(i)), Mu(co[g], u(i)))
               IN  [load |-> <<r(1), r(2), r(3), u(1), u(2), u(3), t(1), t(2), t(3), b, I(1)>>,
                    do |-> << <<"det", 3, 0, 0, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<"det", 3, 1, 0, -1, 7, 8, 9, 1, 2, 3, 4, 5, 6>>, <<"inv", 3, 0, 0, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<"solve", 3, 0, 0, -1, 1, 2, 3, 7, 8, 9, 4, 5, 6, 10, 11, 10>>, <<"solve", 3, 1, 0, -1, 1, 2, 3, 7, 8, 9, 4, 5, 6, 10, 11, 10>> >>]
\* skipped rows and columns of a 4 x 4 matrix
Gen4 == << a, I(2), b, I(0), I(1), Ad(a, b), I(4), I(3), I(0), a, I(-1), b, c, I(1), I(0), Mu(I(2), a) >>
Gen4Plain == << a, I(2), I(7), I(0), I(1), Ad(a, I(1)), I(-4), I(3), I(0), a, I(-1), Q(1, 2), I(5), I(1), I(0), Mu(I(2), a) >>
Rot(k) == [i \in 1..16 |-> ((i + k - 1) % 16) + 1]
LinSkip(id) == LET m == Rot(id[2])
               IN  [load |-> (IF id[1] = 0 THEN Gen4Plain ELSE Gen4) \o <<I(5), b, a, I(-2)>>, do |-> << <<"det", 4, id[3], 0, id[1]>> \o m, <<"det", 4, 1 - id[3], 1, id[1]>> \o m, <<"solve", 4, id[3], 0, id[1]>> \o m \o <<17, 18, 19, 20>>, <<"solve", 4, id[3], 1, id[1]>> \o m \o <<17, 18, 19, 20>>, <<"inv", 4, id[3], 0, id[1]>> \o m, <<"inv", 4, id[3], 1, id[1]>> \o m >>]
\* number matrices
LinNum(p) == LET v == [i \in 1..9 |-> Q(((p[1] * i * i + p[2] * i + p[3]) % 7) - 3, ((i * p[2]) % 3) + 1)]
             IN  [load |-> <<v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], a, b, I(1)>>,
                  do |-> << <<"det", 3, 0, 0, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<"det", 3, 1, 1, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<"solve", 3, 0, 0, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>, <<"inv", 3, 0, 1, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9>> >>]
\* other entries
EntriesX == << Sq(I(2)), Fn("sin", a), Fn("cos", a), Sq(x), Pi, I(0), Di(I(1), a), Po(Ad(a, I(1)), I(2)), Su(Ad(Po(Fn("sin", a), I(2)), Po(Fn("cos", a), I(2))), I(1)), Po(I(2), a), Su(I(0), Fn("sin", a)) >>
LinX(id) == [load |-> <<EntriesX[id[1]], EntriesX[id[2]], EntriesX[id[3]], EntriesX[((id[1] + id[3]) % 11) + 1], I(1), b>>,
             do |-> << <<"det", 2, 0, 0, -1, 1, 2, 3, 4>>, <<"det", 2, 1, 0, -1, 1, 2, 3, 4>>, <<"solve", 2, 0, 0, -1, 1, 2, 3, 4, 5, 6>>, <<"inv", 2, 0, 0, -1, 1, 2, 3, 4>>, <<"inv", 2, 1, 0, -1, 1, 2, 3, 4>> >>]

-----------------------------------------------------------------------------
(* Undefined *)

BlockSyms == << a, b, c, S("d"), S("f"), S("g"), S("h"), S("p"), S("q"), S("r"), S("s"), S("t") >>
WideFold(op, from, to, m) == [i \in 1..(to - from) |-> IF i = 1 THEN <<op, from, from + 1>> ELSE <<op, m + i - 1, from + i>>]

Unary == << "neg", "pos", "sqrt", "log", "sin", "cos", "tan", "asin", "acos", "atan", "expand", "simplify", "normal" >>
Binary == << "add", "sub", "mul", "div", "pow", "atan2", "iadd", "isub", "imul", "idiv" >>
UndMakers == << Und, Po(I(0), I(-1)), Fn("log", I(0)), Fn("log", I(-1)), Fn("asin", I(2)), Sq(I(-4)), Fn("tan", Di(Pi, I(2))), Di(a, I(0)), Po(Q(-1, 2), Q(1, 2)), Po(I(0), I(0)), Fn("acos", Pi), Fn("log", Su(Sq(I(2)), I(2))), Po(Su(I(3), Pi), half), <<"atan2", I(0), I(0)>> >>
UndUnary(id) == [load |-> <<UndMakers[id[1]], a, b>>, do |-> Cat(LAMBDA i : << <<Unary[i], 1>> >>, 1, 13) \o << <<"frac", 1>>, <<"diff", 1, 2>>, <<"subst", 1, 2, 3>>, <<"subst", 2, 2, 1>>, <<"eq", 1, 1>>, <<"eq", 1, 2>>, <<"sign", 1>>, <<"todouble", 1>>, <<"toint", 1>>, <<"query", 1>>, <<"diff", 2, 1>> >>]
UndBinary(id) == [load |-> <<UndMakers[id[1]], (<<I(0), I(1), I(-1), half, a, x, Sq(I(2)), Pi, Ad(a, b), Mu(a, b), Po(a, b), Fn("sin", a), Dbl("0.5")>>)[id[2]]>>, do |-> Cat(LAMBDA i : << <<Binary[i], 1, 2>>, <<Binary[i], 2, 1>>, <<Binary[i], 1, 1>> >>, 1, 10) \o << <<"eq", 1, 2>>, <<"has", 2, 1>> >>]
\* one of many operands becomes Undefined, at any position and depth
UndTerm(k, i) == LET v == BlockSyms[i] IN CASE k = 1 -> v [] k = 2 -> Po(v, I(i)) [] k = 3 -> Fn("sin", v) [] k = 4 -> Mu(I(i + 1), Po(v, half)) [] k = 5 -> Po(I(2), v) [] k = 6 -> Ad(v, Fn("log", v)) [] k = 7 -> <<"atan2", v, BlockSyms[i + 1]>> [] OTHER -> Po(BlockSyms[i + 1], v)
UndWide(id) ==
    LET n == id[1]
        f == 2 * n \* register of the sum
        g == f + n - 1 \* of the product
    IN  [load |-> [i \in 1..n |-> UndTerm(id[2], i)] \o << Und >>,
         do |-> WideFold("add", 1, n, n + 1) \o WideFold("mul", 1, n, f)
                \o << <<"sin", f>>, <<"pow", f, g>>, <<"pow", g, f>>, <<"atan2", f, g>> >>
                \o Cat(LAMBDA i : << <<"subst", f, i, n + 1>>, <<"subst", g, i, n + 1>>, <<"subst", g + 1, i, n + 1>>, <<"subst", g + 2, i, n + 1>>, <<"subst", g + 3, i, n + 1>>, <<"subst", g + 4, i, n + 1>> >>, 1, n)]
UndWideSym(id) ==
    LET n == id[1]
        f == 3 * n
        g == f + n - 1
    IN  [load |-> [i \in 1..n |-> UndTerm(id[2], i)] \o << Und >> \o [i \in 1..n |-> BlockSyms[i]],
         do |-> WideFold("add", 1, n, 2 * n + 1) \o WideFold("mul", 1, n, f)
                \o << <<"log", f>>, <<"pow", f, g>>, <<"pow", g, f>>, <<"atan2", g, f>> >>
                \o Cat(LAMBDA i : Cat(LAMBDA j : << <<"subst", j, n + 1 + i, n + 1>> >>, f, g) \o << <<"subst", g + 1, n + 1 + i, n + 1>>, <<"subst", g + 2, n + 1 + i, n + 1>>, <<"subst", g + 3, n + 1 + i, n + 1>>, <<"subst", g + 4, n + 1 + i, n + 1>> >>, 1, n)]
\* numbers without real value under an operation
DomArgs == Numbers \o Roots \o InvArgs \o << Po(I(0), I(2)), Su(Sq(I(2)), Sq(I(2))), Fn("sin", Pi), Di(Pi, I(2)), Mu(Q(3, 2), Pi), Mu(Q(-5, 2), Pi), Su(I(3), Pi), Fn("log", half), Fn("cos", I(2)), Fn("tan", I(2)), Fn("acos", I(-1)), Su(Euler, I(3)), Ne(Po(I(2), Q(1, 3))) >>
DomExps == << I(0), I(-1), I(2), half, Q(-1, 2), Q(1, 3), Q(2, 3), Sq(I(2)), Pi, Su(I(3), Pi), Dbl("0.3"), Fn("log", half), I(-3), Q(-2, 3) >>
Dom(id) == [load |-> <<DomArgs[id[1]]>> \o DomExps, do |-> Cat(LAMBDA f : << <<Fns[f], 1>> >>, 1, 8) \o Cat(LAMBDA j : << <<"pow", 1, j + 1>>, <<"div", j + 1, 1>> >>, 1, 14)]

-----------------------------------------------------------------------------
(* Queries *)

QueryCalls(i, j) == << <<"has", i, j>>, <<"has", j, i>> >>
Query2(id) ==
    LET ch == ChunkOf(All, 8, id[2])
        n == Len(ch)
    IN  [load |-> <<All[id[1]], a, Sq(I(2)), Fn("sin", a)>> \o ch,
         do |-> Cat(LAMBDA i : LET m == n + 4 + (i - 1) * 8
                               IN  << <<"add", 1, i + 4>>, <<"mul", 1, i + 4>>, <<"query", m + 1>>, <<"query", m + 2>>, <<"has", m + 1, 1>>, <<"has", m + 2, i + 4>>, <<"has", m + 1, 2>>, <<"has", m + 2, 3>>, <<"op", m + 1, 0>>, <<"op", m + 1, 1>>, <<"op", m + 2, 0>>, <<"op", m + 2, 2>>, <<"complexity", m + 1>>, <<"complexity", m + 2>>,
                                      <<"pow", 1, i + 4>>, <<"query", m + 7>>, <<"complexity", m + 7>>, <<"op", m + 7, 1>>, <<"has", m + 7, 4>> >>, 1, n)]

-----------------------------------------------------------------------------
(* Doubles next to each other, of all magnitudes *)

DblTexts == << "0.10000000000000001", "0.10000000000000002", "-0.10000000000000003", "0.29999999999999999", "-0.30000000000000004", "0.3000000000000001", "-0.77769999999999995", "0.77770000000000006", "0.77770000000000017", "1.5", "1.5000000000000002", "-1.5000000000000004", "12.345599999999999", "-12.345600000000001", "12.345600000000003", "-1234.5678", "1234.5678000000003", "1234.5678000000005", "99999.999899999995", "99999.99990000001", "-99999.999900000024", "1048576", "-1048576.0000000002", "1048576.0000000005", "-123456789", "123456789.00000001", "123456789.00000003", "98765432.123400003", "98765432.123400018", "-98765432.123400033", "2147483648", "-2147483648.0000005", "2147483648.000001", "-10000000000.25", "10000000000.250002", "10000000000.250004", "4503599627370496", "4503599627370497", "-4503599627370498", "9007199254740992", "-9007199254740994", "9007199254740996", "-1000000000000000", "1000000000000000.1", "1000000000000000.2", "1e+20", "1.0000000000000002e+20", "-1.0000000000000003e+20", "1.0000000000000001e+300", "-1.0000000000000002e+300", "1.0000000000000003e+300", "4.9406564584124654e-324", "2.2e-16", "2.2999999999999999e-16", "-1.0000000000000001e-17", "5.0000000000000002e-05", "0.00014999999999999999", "0.0001", "1.79e+308", "-1.79e+308", "9.9999999999999994e+303", "900719925474.09924", "0.33333333333333331" >>
DblConv(id) == [load |-> <<Dbl(DblTexts[id[1]]), Q(3, 7), a>>,
                do |-> << <<"todouble", 1>>, <<"toint", 1>>, <<"neg", 1>>, <<"sign", 1>>, <<"mul", 1, 2>>, <<"add", 1, 2>>, <<"sub", 6, 1>>, <<"mul", 1, 3>>, <<"print", 1>>, <<"stream", 1>>, <<"todouble", 4>>, <<"todouble", 5>>, <<"todouble", 6>>, <<"sub", 1, 1>> >>]

\* sums and products of many operands, with some in common
WidePool == << a, Mu(I(2), b), c, x, Mu(I(-3), a), Mu(a, b), Po(a, I(2)), Sq(x), Sq(I(2)), Pi, I(2), Q(-3, 2), Fn("sin", a), Po(Fn("sin", b), I(2)), Po(Fn("cos", b), I(2)), Fn("log", x), Po(x, b), Di(I(1), a), Di(I(2), Ad(a, b)), Mu(Sq(I(2)), a), Mu(I(-1), Mu(a, b)),
               Mu(Po(I(3), Q(1, 3)), b), Fn("atan", c), Po(I(2), a), Mu(Pi, a), Mu(c, Sq(x)), S("d"), S("e_1"), Po(c, I(-2)), Mu(y, x), Mu(I(5), S("d")) >>
Wide(id) ==
    LET n == Len(WidePool)
    IN  [load |-> [i \in 1..12 |-> WidePool[1 + ((id[1] + (id[2] * i)) % n)]] \o <<a, c, I(2)>>,
         do |-> WideFold("add", 1, 6, 15) \o WideFold("add", 4, 12, 20)
                \o << <<"add", 20, 28>>, <<"add", 28, 20>>, <<"eq", 29, 30>>, <<"rebuild", 29, 3, 2>>, <<"eq", 29, 31>>, <<"sub", 29, 28>>, <<"eq", 32, 20>>, <<"sub", 28, 20>> >>
                \o WideFold("mul", 1, 6, 33) \o WideFold("mul", 4, 9, 38)
                \o << <<"mul", 38, 43>>, <<"mul", 43, 38>>, <<"eq", 44, 45>>, <<"div", 44, 43>>, <<"div", 38, 43>>, <<"rebuild", 44, 2, 3>>, <<"subst", 29, 13, 14>>, <<"diff", 29, 13>>, <<"has", 29, 13>>, <<"query", 29>>, <<"roundtrip", 29>>, <<"stream", 29>>, <<"sign", 29>>,
                       <<"roundtrip", 44>>, <<"stream", 44>>, <<"subst", 44, 13, 14>>, <<"diff", 44, 13>>, <<"query", 44>>, <<"complexity", 29>>, <<"mul", 29, 15>>, <<"add", 55, 29>>, <<"pow", 44, 15>>, <<"sign", 44>>, <<"neg", 29>>, <<"add", 29, 58>> >>]

\* operands in order, the last ones of the first sum or product are kin of the first ones of the second
BlockTerm(k, i, f) == LET v == BlockSyms[i]
                      IN  CASE k = 1 -> IF f THEN v ELSE Mu(I(2), v) [] k = 2 -> IF f THEN Po(v, I(2)) ELSE Po(v, I(3)) [] k = 3 -> Fn("sin", v) [] k = 4 -> IF f THEN Po(Fn("sin", v), I(2)) ELSE Po(Fn("cos", v), I(2))
                            [] k = 5 -> IF f THEN Mu(Sq(I(2)), Po(v, half)) ELSE Po(v, half) [] OTHER -> IF f THEN v ELSE Ne(v)
Blocks(id) ==
    LET m == id[1]
        n == id[2]
        e == 2 * (m + n)
    IN  [load |-> [i \in 1..(m + n) |-> IF i <= m THEN BlockTerm(id[4], i, TRUE) ELSE BlockTerm(id[4], i - id[3], FALSE)],
         do |-> WideFold("add", 1, m, m + n) \o WideFold("add", m + 1, m + n, (m + n) + (m - 1)) \o << <<"add", (m + n) + (m - 1), e - 2>>, <<"add", e - 2, (m + n) + (m - 1)>>, <<"eq", e - 1, e>>, <<"rebuild", e - 1, 5, 3>>, <<"sub", e - 1, e - 2>> >>
                \o WideFold("mul", 1, m, e + 2) \o WideFold("mul", m + 1, m + n, (e + 2) + (m - 1))
                \o LET p == e + 2 + (m - 1)
                        q == p + (n - 1)
                    IN  << <<"mul", p, q>>, <<"mul", q, p>>, <<"eq", q + 1, q + 2>>, <<"rebuild", q + 1, 3, 5>>, <<"div", q + 1, q>>, <<"div", p, q>>, <<"expand", e - 1>> >>]

\* larger matrices, with zeros
LinBig(id) == LET n == id[1]
                  e(i) == LET z == (id[2] * i * i) + (id[3] * i) + (i \div n)
                          IN  IF (z + id[4]) % 3 = 0 THEN I(0) ELSE IF id[4] = 2 /\ z % 7 = 0 THEN a ELSE I(((z * (id[3] + i)) % 9) - 4)
                  m == [i \in 1..(n * n) |-> i]
              IN  [load |-> [i \in 1..(n * n) |-> e(i)] \o [i \in 1..n |-> I((i * id[2]) % 5)],
                   do |-> << <<"det", n, 0, 0, -1>> \o m, <<"det", n, 1, 1, -1>> \o m, <<"solve", n, 0, 1, -1>> \o [i \in 1..(n * (n + 1)) |-> i], <<"solve", n, 1, 0, -1>> \o [i \in 1..(n * (n + 1)) |-> i], <<"inv", n, 0, 0, -1>> \o m, <<"inv", n, 1, 1, -1>> \o m >>]

\* numbers next to the ends of domains and to special values
EdgeCentres == << I(0), I(1), I(-1), half, Ne(half), I(2) >>
Edge(id) == LET e == Po(I(10), I(-id[2]))
                t == CASE id[3] = 1 -> e [] id[3] = 2 -> Ne(e) [] id[3] = 3 -> Mu(e, Sq(I(2))) [] OTHER -> Mu(Ne(e), Pi)
            IN  [load |-> <<EdgeCentres[id[1]], t, Ad(EdgeCentres[id[1]], t), half, Q(-1, 3), a, I(-2), x, I(1)>>,
                 do |-> << <<"asin", 3>>, <<"acos", 3>>, <<"log", 3>>, <<"sqrt", 3>>, <<"atan", 3>>, <<"pow", 3, 5>>, <<"pow", 3, 7>>, <<"sub", 3, 1>>, <<"eq", 3, 1>>, <<"sign", 17>>, <<"sign", 3>>, <<"todouble", 3>>, <<"toint", 3>>, <<"mul", 17, 6>>, <<"pow", 8, 17>>, <<"pow", 17, 7>>, <<"sin", 10>>, <<"cos", 11>>, <<"sin", 17>>, <<"cos", 17>>,
                           <<"sub", 17, 2>>, <<"div", 17, 2>>, <<"atan2", 3, 9>>, <<"pow", 17, 4>>, <<"log", 17>>, <<"mul", 3, 6>>, <<"sub", 27, 6>>, <<"simplify", 28>> >>]

\* numbers next to a perfect power
NearBases == << 10, 100, 464, 1000, 1291, 2000, 10000, 46341, 99991, 1000000, 999999 >>
NearRoot(id) == LET n == I(NearBases[id[1]])
                IN  [load |-> <<n, I(id[2]), I(id[3]), Q(1, id[2]), Q(-1, id[2])>>,
                     do |-> << <<"pow", 1, 2>>, <<"add", 6, 3>>, <<"pow", 7, 4>>, <<"todouble", 8>>, <<"toint", 8>>, <<"sub", 8, 1>>, <<"sign", 9>>, <<"div", 8, 1>>, <<"eq", 8, 1>>, <<"pow", 7, 5>>, <<"div", 1, 7>>, <<"pow", 12, 4>>, <<"mul", 8, 11>> >>]

\* powers of constants of either sign, to even and odd exponents
ConstBases == << Su(Sq(I(2)), I(2)), Su(I(1), Sq(I(3))), Su(Pi, I(4)), Su(I(3), Pi), Fn("log", half), Fn("sin", I(4)), Fn("cos", I(2)), Su(Euler, I(3)), Ad(I(1), Sq(I(2))), Su(Pi, I(3)), Fn("log", I(3)), Fn("atan", I(-2)), Fn("tan", I(2)), Ne(Pi), Ne(Sq(I(5))), Po(I(-2), I(3)), Su(Po(I(2), Q(1, 3)), Sq(I(2))), Mu(Ne(Pi), Sq(I(2))) >>
ConstPow(id) == [load |-> <<ConstBases[id[1]], I(id[2]), half, Q(1, 3), Q(3, 2), x, a>>,
                 do |-> << <<"pow", 1, 2>>, <<"log", 8>>, <<"sqrt", 8>>, <<"pow", 8, 4>>, <<"pow", 8, 5>>, <<"mul", 8, 6>>, <<"log", 13>>, <<"sqrt", 13>>, <<"atan", 8>>, <<"sin", 8>>, <<"sign", 8>>, <<"mul", 1, 8>>, <<"log", 18>>, <<"pow", 8, 7>>, <<"log", 20>>, <<"pow", 8, 2>>, <<"log", 22>> >>]

\* derivatives of functions of two arguments
DiffArgs2 == << a, b, x, Mu(a, b), Po(a, I(2)), Ad(a, b), Fn("sin", a), Sq(x), I(1), I(2), I(-1), Pi, Mu(I(2), a), Su(a, I(1)), Di(b, a), Ad(I(1), Po(a, I(2))), Po(I(2), a) >>
DiffAtan2(id) == [load |-> <<DiffArgs2[id[1]], DiffArgs2[id[2]], a, b, x, I(2), I(-2)>>,
                  do |-> << <<"atan2", 1, 2>>, <<"diff", 8, 3>>, <<"diff", 8, 4>>, <<"diff", 8, 5>>, <<"mul", 8, 6>>, <<"diff", 12, 3>>, <<"pow", 8, 7>>, <<"diff", 14, 3>>, <<"diff", 14, 4>>, <<"div", 8, 6>>, <<"sin", 17>>, <<"diff", 18, 3>>, <<"mul", 3, 8>>, <<"diff", 20, 3>> >>]

\* functions of powers of sums of functions: towers
Wrap(k, t) == CASE k = 1 -> Fn("sin", t) [] k = 2 -> Fn("cos", t) [] k = 3 -> Fn("log", t) [] k = 4 -> Fn("atan", t) [] k = 5 -> Po(Ad(t, a), I(-1)) [] k = 6 -> Po(Ad(I(1), t), half) [] k = 7 -> Mu(Ad(t, b), c)
                [] k = 8 -> Di(t, Ad(I(1), t)) [] k = 9 -> Po(x, t) [] k = 10 -> <<"atan2", t, b>> [] OTHER -> Ad(Mu(I(2), t), Di(a, b))
Tower(id, t) == Wrap(id[1], Wrap(id[2], Wrap(id[3], t)))
Towers == (1..11) \X (1..11) \X (1..11)
DeepSimp(id) == [load |-> <<Tower(id, Di(a, Ad(a, b)))>>, do |-> << <<"normal", 1>>, <<"simplify", 1>>, <<"frac", 1>>, <<"expand", 1>>, <<"clear">>, <<"simplify", 6>>, <<"normal", 1>>, <<"eq", 2, 8>>, <<"expand", 2>> >>]
\* chains of roots: what is inside of a root is replaced before what is around it
Link(k, t) == CASE k = 1 -> Ad(Di(Sq(Ad(t, a)), b), c) [] k = 2 -> Ad(Po(Ad(t, b), Q(1, 3)), a) [] k = 3 -> Ad(Sq(Mu(a, t)), I(1)) [] k = 4 -> Di(Sq(Su(t, b)), a) [] OTHER -> Ad(Po(t, a), b)
RECURSIVE Links(_, _, _)
Links(n, k, t) == IF n = 0 THEN t ELSE Links(n - 1, k, Link(IF k <= 5 THEN k ELSE 1 + ((n + k) % 5), t))
Chain(id) == [load |-> <<Links(id[1], id[2], CASE id[3] = 1 -> Ad(a, I(1)) [] id[3] = 2 -> Fn("log", Ad(a, b)) [] OTHER -> x), Ad(a, b)>>,
              do |-> << <<"mul", 1, 2>>, <<"normal", 3>>, <<"frac", 3>>, <<"clear">>, <<"normal", 1>>, <<"frac", 1>>, <<"div", 1, 2>>, <<"normal", 10>>, <<"clear">>, <<"normal", 10>>, <<"normal", 3>>, <<"simpcx", 1>> >>]
DeepCalc(id) == [load |-> <<Tower(id, Mu(a, b)), a, b, x, I(2), Ad(b, c)>>,
                 do |-> << <<"diff", 1, 2>>, <<"diff", 1, 3>>, <<"subst", 1, 2, 5>>, <<"subst", 1, 3, 6>>, <<"sign", 1>>, <<"has", 1, 2>>, <<"has", 1, 4>>, <<"has", 9, 2>>, <<"query", 1>>, <<"query", 9>>, <<"complexity", 1>>, <<"op", 1, 1>>, <<"rebuild", 1, 1, 0>>, <<"eq", 1, 12>>, <<"subst", 9, 3, 5>>, <<"todouble", 13>> >>]
DeepText(id) == [load |-> <<Tower(id, Di(a, Ad(a, b)))>>, do |-> << <<"roundtrip", 1>>, <<"stream", 1>>, <<"neg", 1>>, <<"roundtrip", 3>>, <<"stream", 3>> >>]

-----------------------------------------------------------------------------

Bits9 == [1..9 -> {0, 1}]

Ids ==
    CASE Family = "arith" -> Ids2(All, All, 10)
      [] Family = "arithdbl" -> Ids2(Doubles \o Numbers, DblOthers, 10)
      [] Family = "triple" -> Triples(OrderPool)
      [] Family = "trigkin" -> (1..3) \X (1..Len(KinPow)) \X (1..3) \X (1..Len(KinPow))
      [] Family = "trigrel" -> (1..Len(RelArgs)) \X (1..3) \X (1..3) \X (1..(IF Thorough THEN 7 ELSE 4)) \X (1..(IF Thorough THEN 7 ELSE 5))
      [] Family = "pow" -> Ids2(All, Exponents, 13)
      [] Family = "nest" -> (1..Len(NestBases)) \X (1..Len(NestExps))
      [] Family = "numpow" -> {<<i>> : i \in 1..NumPowMax}
      [] Family = "fracpow" -> (2..(IF Thorough THEN 40 ELSE 16)) \X (2..(IF Thorough THEN 40 ELSE 16))
      [] Family = "order" -> Triples(OrderPool)
      [] Family = "ordersums" -> Triples(OrderSums)
      [] Family = "eq" -> Ids2(EqPool, EqPool, 25)
      [] Family = "nearby" -> (1..12) \X (1..3) \X (1..Len(NearLeaves))
      [] Family = "twin" -> {<<i>> : i \in 1..Len(All)}
      [] Family = "expand2" -> Pairs(ExpandPool) \union {<<i, i>> : i \in 1..Len(ExpandPool)}
      [] Family = "expand3" -> Cube(PolyPool, PolyPool, PolyPool)
      [] Family = "expandpow" -> (1..Len(PowSums)) \X (1..Len(PowExps))
      [] Family = "fracsum" -> Triples(FracTerms)
      [] Family = "edge" -> (1..Len(EdgeCentres)) \X (2..12) \X (1..4)
      [] Family = "wide" -> (0..(Len(WidePool) - 1)) \X (1..(IF Thorough THEN 15 ELSE 5))
      [] Family = "linbig" -> {4, 5} \X (1..5) \X (0..5) \X (0..2)
      [] Family = "bigcoeffs" -> (1..Len(BigInts)) \X (1..Len(BigInts)) \X (1..Len(SlimPolys))
      [] Family = "fracpair" -> {<<i, j>> \in (1..Len(RatioPool)) \X (1..Len(RatioPool)) : i < j}
      [] Family = "chain" -> (3..(IF Thorough THEN 8 ELSE 6)) \X (1..10) \X (1..3)
      [] Family = "namepair" -> (1..Len(SimNames)) \X (0..5)
      [] Family = "dblconv" -> {<<i>> : i \in 1..Len(DblTexts)}
      [] Family = "nearroot" -> (1..Len(NearBases)) \X (2..(IF Thorough THEN 9 ELSE 6)) \X (-2..2)
      [] Family = "constpow" -> (1..Len(ConstBases)) \X (-6..6)
      [] Family = "diffatan2" -> (1..Len(DiffArgs2)) \X (1..Len(DiffArgs2))
      [] Family \in {"deepsimp", "deepcalc", "deeptext"} -> IF Thorough THEN Towers ELSE {t \in Towers : ((t[1] + (2 * t[2]) + (5 * t[3])) % 4) = 0}
      [] Family = "rat2" -> (1..Len(RatPool)) \X (1..Len(RatPool))
      [] Family = "rat3" -> Cube(PolyPool, PolyPool, PolyPool)
      [] Family = "mix2" -> (1..Len(MixPool)) \X (1..Len(MixPool))
      [] Family = "poly3" -> Cube(GcdPool, GcdPool, GcdPool)
      [] Family = "poly1" -> (1..Len(GcdPool)) \X (1..Len(GcdPool))
      [] Family = "pseudo" -> (1..Len(PseudoPool)) \X (1..Len(PseudoPool))
      [] Family = "subst" -> (1..Len(SubstPool)) \X (1..Len(SubstFrom))
      [] Family = "substpos" -> (1..Len(SubstIn)) \X (1..Len(SubstIn))
      [] Family = "diff" -> (1..Len(DiffInner)) \X (1..Len(DiffInner))
      [] Family = "difffct" -> (1..Len(DiffInner)) \X (1..Len(Fs))
      [] Family = "diffall" -> {<<i>> : i \in 1..Len(All)}
      [] Family = "trig" -> UNION {{<<i, k>> : k \in (-3 * TrigDenoms[i])..(3 * TrigDenoms[i])} : i \in 1..Len(TrigDenoms)}
      [] Family = "compose" -> {<<i>> : i \in 1..Len(InvArgs)}
      [] Family = "composesym" -> {<<i>> : i \in 1..Len(SymArgs)}
      [] Family = "atan2" -> Ids2(AtanArgs, AtanArgs, 7)
      [] Family = "log2" -> (1..Len(LogArgs)) \X (1..Len(LogArgs))
      [] Family = "num2" -> (1..Len(BigPool)) \X (1..Len(BigPool))
      [] Family = "signof" -> (1..Len(SignParts)) \X (1..Len(SignParts))
      [] Family \in {"diffof", "substof", "simpof", "textof"} -> OfPairs
      [] Family = "numcmp" -> (1..Len(Anchors)) \X (1..Len(Distances)) \X {1, 2}
      [] Family = "numorder" -> (1..Len(Anchors)) \X (1..9) \X {1, 2} \X (IF Thorough THEN 1..Len(Distances) ELSE {1, 4, 5})
      [] Family \in {"undwide", "undwidesym"} -> (3..(IF Thorough THEN 9 ELSE 7)) \X (1..8)
      [] Family = "numexp" -> Ids2(BigPool, NumExp, 12)
      [] Family = "perfect" -> (1..Len(RootBases)) \X (2..(IF Thorough THEN 24 ELSE 12))
      [] Family = "frac2" -> Ids2(FracPool, FracPool, 15)
      [] Family = "sign2" -> (1..Len(SignPool)) \X (1..Len(SignPool))
      [] Family = "signfct" -> {<<i>> : i \in 1..Len(SignPool)}
      [] Family = "conv2" -> (1..Len(NumericPool)) \X (1..Len(NumericPool))
      [] Family = "conv1" -> Ids1(ConvInts \o All, 15)
      [] Family = "print" -> Ids2(PrintPool, PrintPool, 8)
      [] Family = "print1" -> {<<i>> : i \in 1..Len(PrintPool)}
      [] Family = "stream" -> Ids2(StreamPairs, StreamPairs, 8)
      [] Family = "stream1" -> {<<i>> : i \in 1..Len(StreamPool)}
      [] Family = "names" -> {<<i>> : i \in 1..Len(Words)}
      [] Family = "texts" -> {<<i>> : i \in 1..Len(Texts)}
      [] Family = "parse" -> Prefixes
      [] Family = "blocks" -> (3..6) \X (3..6) \X (0..2) \X (1..6)
      [] Family = "parsemore" -> {i \in (1..Len(MoreTokens)) \X (1..Len(MorePartners)) : i[2] = 1 \/ i[1] > 13} \* powers of numbers with large exponents take long
      [] Family = "parseframe" -> (1..Len(ScalarTokens)) \X (1..Len(ScalarTokens))
      [] Family = "lin2" -> (1..Len(Entries2)) \X (1..Len(Entries2)) \X (1..Len(Entries2)) \X (1..Len(Entries2))
      [] Family = "lin3" -> Bits9
      [] Family = "lin3sing" -> (1..4) \X (1..4) \X (0..4) \X (0..4)
      [] Family = "linskip" -> (0..15) \X (0..(IF Thorough THEN 15 ELSE 7)) \X {0, 1}
      [] Family = "linnum" -> (0..6) \X (0..6) \X (0..6)
      [] Family = "linx" -> (1..Len(EntriesX)) \X (1..Len(EntriesX)) \X (1..Len(EntriesX))
      [] Family = "und1" -> {<<i>> : i \in 1..Len(UndMakers)}
      [] Family = "und2" -> (1..Len(UndMakers)) \X (1..13)
      [] Family = "dom" -> {<<i>> : i \in 1..Len(DomArgs)}
      [] Family = "query" -> Ids2(All, All, 8)

Session(id) ==
    CASE Family = "arith" -> Against(All[id[1]], All, 10, id[2], ArithCalls)
      [] Family = "arithdbl" -> Against((Doubles \o Numbers)[id[1]], DblOthers, 10, id[2], ArithCalls)
      [] Family = "triple" -> Triple(id, OrderPool)
      [] Family = "trigkin" -> TrigKin(id)
      [] Family = "trigrel" -> TrigRel(id)
      [] Family = "pow" -> Against(All[id[1]], Exponents, 13, id[2], PowCalls)
      [] Family = "nest" -> Nest(id)
      [] Family = "numpow" -> NumPow(id)
      [] Family = "fracpow" -> FracPow(id)
      [] Family = "order" -> Order3(id)
      [] Family = "ordersums" -> Order3Sums(id)
      [] Family = "eq" -> Against(EqPool[id[1]], EqPool, 25, id[2], EqCalls)
      [] Family = "nearby" -> NearBy(id)
      [] Family = "twin" -> Twin(id)
      [] Family = "expand2" -> Expand2(id)
      [] Family = "expand3" -> Expand3(id)
      [] Family = "expandpow" -> ExpandPow(id)
      [] Family = "fracsum" -> FracSum(id)
      [] Family = "fracpair" -> FracPair(id)
      [] Family = "namepair" -> NamePair(id)
      [] Family = "chain" -> Chain(id)
      [] Family = "dblconv" -> DblConv(id)
      [] Family = "nearroot" -> NearRoot(id)
      [] Family = "wide" -> Wide(id)
      [] Family = "linbig" -> LinBig(id)
      [] Family = "edge" -> Edge(id)
      [] Family = "constpow" -> ConstPow(id)
      [] Family = "diffatan2" -> DiffAtan2(id)
      [] Family = "deepsimp" -> DeepSimp(id)
      [] Family = "deepcalc" -> DeepCalc(id)
      [] Family = "deeptext" -> DeepText(id)
      [] Family = "rat2" -> Rat2(id)
      [] Family = "rat3" -> Rat3(id)
      [] Family = "mix2" -> Mix2(id)
      [] Family = "poly3" -> Poly3(id)
      [] Family = "bigcoeffs" -> BigCoeffs(id)
      [] Family = "poly1" -> Poly1(id)
      [] Family = "pseudo" -> Pseudo2(id)
      [] Family = "subst" -> SubstSession(id)
      [] Family = "substpos" -> SubstPos(id)
      [] Family = "diff" -> DiffSession(id)
      [] Family = "difffct" -> DiffFct(id)
      [] Family = "diffall" -> DiffAll(id)
      [] Family = "trig" -> Trig(id)
      [] Family = "compose" -> Compose(id)
      [] Family = "composesym" -> ComposeSym(id)
      [] Family = "atan2" -> Against(AtanArgs[id[1]], AtanArgs, 7, id[2], Atan2Calls)
      [] Family = "log2" -> Log2(id)
      [] Family = "num2" -> Num2(id)
      [] Family = "numcmp" -> NumCmp(id)
      [] Family = "numorder" -> NumOrder(id)
      [] Family = "undwide" -> UndWide(id)
      [] Family = "undwidesym" -> UndWideSym(id)
      [] Family = "numexp" -> Against(BigPool[id[1]], NumExp, 12, id[2], NumPowCalls)
      [] Family = "perfect" -> Perfect(id)
      [] Family = "frac2" -> Against(FracPool[id[1]], FracPool, 15, id[2], ArithCalls)
      [] Family = "sign2" -> Sign2(id)
      [] Family = "signof" -> SignOf(id)
      [] Family = "diffof" -> OfSession(id, 2, DiffCalls)
      [] Family = "substof" -> OfSession(id, 2, SubstCalls)
      [] Family = "simpof" -> OfSession(id, 4, SimpCalls)
      [] Family = "textof" -> OfSession(id, 1, TextCalls)
      [] Family = "signfct" -> SignFct(id)
      [] Family = "conv2" -> Conv2(id)
      [] Family = "conv1" -> Each(ConvInts \o All, 15, id[1], ConvCall1)
      [] Family = "print" -> PrintSession(id)
      [] Family = "print1" -> Print1(id)
      [] Family = "stream" -> StreamSession(id)
      [] Family = "stream1" -> Stream1(id)
      [] Family = "names" -> NameSession(id)
      [] Family = "texts" -> TextSession(id)
      [] Family = "parse" -> ParseSession(id)
      [] Family = "parseframe" -> ParseFrame(id)
      [] Family = "parsemore" -> ParseMore(id)
      [] Family = "blocks" -> Blocks(id)
      [] Family = "lin2" -> Lin2(id)
      [] Family = "lin3" -> Lin3(id)
      [] Family = "lin3sing" -> Lin3Sing(id)
      [] Family = "linskip" -> LinSkip(id)
      [] Family = "linnum" -> LinNum(id)
      [] Family = "linx" -> LinX(id)
      [] Family = "und1" -> UndUnary(id)
      [] Family = "und2" -> UndBinary(id)
      [] Family = "dom" -> Dom(id)
      [] Family = "query" -> Query2(id)

VARIABLE cur
Init == cur \in Ids /\ PrintT(ToJson(Session(cur)))
Next == UNCHANGED cur
=============================================================================
