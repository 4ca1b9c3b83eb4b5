------------------------------ MODULE TsymTrace ------------------------------
(***************************************************************************)
(* Trace validation: is every recorded session of the real library a       *)
(* behaviour of the state machine?  One initial state per session; each    *)
(* step consumes one recorded call.  A call that breaks its contract is    *)
(* reported with the clauses it breaks and the session goes on with what   *)
(* the library returned, so that the rest of it is examined as well.       *)
(***************************************************************************)
EXTENDS Tsym, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, pc, regs, made, bags, opt, stat

vars == <<sess, pc, regs, made, bags, opt, stat>>

Events == Sessions[sess].ev

\* What is examined besides the contracts of the calls.  Values are the expensive part.
ExamineHistory == Sessions[sess].h = 1
ExamineOrder == Sessions[sess].c = 1
ExamineValue == Sessions[sess].v = 1
Attended(op) == LET ops == Sessions[sess].ops IN ops = <<>> \/ op \in {ops[i] : i \in DOMAIN ops}
Call == Events[pc]

Init == /\ sess \in 1..Len(Sessions)
        /\ pc = 1
        /\ regs = <<>>
        /\ made = <<>>
        /\ bags = <<>>
        /\ opt = 1000
        /\ stat = [exact |-> 0, real |-> 0, open |-> 0, none |-> 0]

Operands(e) == [i \in 1..Len(e.a) |-> regs[e.a[i]]]

(* History: the same operation on the same operands under the same option returns the same expression, whatever happened
   in between.  Earlier calls of a session are found in the recorded prefix. *)
RECURSIVE OptAt(_)
OptAt(k) == IF k = 0 THEN 1000 ELSE LET e == Events[k] IN IF e.op = "maxprime" THEN e.x[1] ELSE IF e.op = "restart" THEN 1000 ELSE OptAt(k - 1)
RECURSIVE RegsAt(_, _, _)
RegsAt(n, k, acc) == \* registers before event n of this session
    IF k = n THEN acc
    ELSE LET e == Events[k]
         IN  RegsAt(n, k + 1, IF e.op = "restart" THEN <<>> ELSE IF Field(e, "r") THEN Append(acc, e.r) ELSE acc)
Outcome(e) == [f \in (DOMAIN e) \ {"a"} |-> e[f]]
SameHistory(e, xs) ==
    \A k \in 1..(pc - 1) :
        LET f == Events[k]
        IN  (f.op = e.op /\ f.x = e.x /\ Len(f.a) = Len(e.a) /\ Len(e.a) > 0 /\ e.op \notin {"frozen"} /\ OptAt(k) = opt)
            => LET rg == RegsAt(k, 1, <<>>)
               IN  (\A i \in 1..Len(e.a) : rg[f.a[i]] = xs[i]) => Outcome(f) = Outcome(e)

(* Order of construction: bags[i] is the multiset of terms whose sum (or product) was computed in register i.  Equal
   bags have equal results, with the exceptions listed in Tsym. *)
RECURSIVE LooseIn(_, _)
LooseIn(m, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE j \in S : TRUE IN (m[k] * Cardinality(Loose(regs[k]))) + LooseIn(m, S \ {k})
Delicate(op, m) ==
    IF op = "add" THEN /\ \E k \in DOMAIN m : HasFct(regs[k], {"sin"})
                       /\ \E k \in DOMAIN m : HasFct(regs[k], {"cos"})
    ELSE \/ LooseIn(m, DOMAIN m) >= 2
         \/ \E k \in DOMAIN m : NumberPower(regs[k])
         \/ (\E k \in DOMAIN m : NumberRoot(regs[k])) /\ \E k \in DOMAIN regs : LargeNumber(regs[k])

Single(i) == [op |-> "one", m |-> [k \in {i} |-> 1]]
Part(i, op) == IF bags[i].op = op THEN bags[i].m ELSE [k \in {i} |-> 1]
Merge(m, n) == [k \in (DOMAIN m) \union (DOMAIN n) |->
                   (IF k \in DOMAIN m THEN m[k] ELSE 0) + (IF k \in DOMAIN n THEN n[k] ELSE 0)]
BagOf(e) == IF ExamineOrder /\ e.op \in {"add", "mul"} THEN [op |-> e.op, m |-> Merge(Part(e.a[1], e.op), Part(e.a[2], e.op))]
            ELSE Single(Len(regs) + 1)
OrderWrong(e) ==
    LET bag == BagOf(e)
    IN  /\ e.op = "mul" => \A k \in DOMAIN bag.m : ~SumFactor(regs[k])
        /\ ~Delicate(e.op, bag.m)
        /\ \E i \in DOMAIN bags : bags[i] = bag /\ regs[i] # e.r

Broken(e, xs, j) ==
    (IF Attended(e.op) THEN Contract(e, xs, made, j.bad) ELSE {})
    \union If(ExamineHistory /\ e.op # "maxprime" /\ ~SameHistory(e, xs), "history")
    \union If(e.op = "frozen" /\ e.trees # regs, "frozen")
    \union If(ExamineOrder /\ e.op \in {"add", "mul"} /\ Field(e, "r") /\ ~IsUnd(e.r) /\ OrderWrong(e), "order")

Step ==
    /\ pc <= Len(Events)
    /\ LET e == Call
           xs == Operands(e)
           j == IF ~Attended(e.op) THEN [bad |-> {}, how |-> "none"]
                ELSE IF ExamineValue THEN Judged(e, xs)
                ELSE [bad |-> If(Field(e, "r") /\ e.r.k # "big" /\ ~WellFormed(e.r), "shape"), how |-> "none"]
           broken == Broken(e, xs, j)
       IN  /\ broken # {} => PrintT(ToJson([bad |-> Sessions[sess].id, at |-> pc, op |-> e.op, clauses |-> broken]))
           /\ regs' = IF e.op = "restart" THEN <<>> ELSE IF Field(e, "r") THEN Append(regs, e.r) ELSE regs
           /\ made' = IF e.op = "restart" THEN <<>> ELSE IF Field(e, "r") THEN Append(made, e.op) ELSE made
           /\ bags' = IF e.op = "restart" THEN <<>> ELSE IF Field(e, "r") THEN Append(bags, BagOf(e)) ELSE bags
           /\ opt' = IF e.op = "maxprime" THEN e.x[1] ELSE IF e.op = "restart" THEN 1000 ELSE opt
           /\ stat' = [stat EXCEPT ![j.how] = @ + 1]
    /\ pc' = pc + 1
    /\ sess' = sess

Done ==
    /\ pc = Len(Events) + 1
    /\ PrintT(ToJson([done |-> Sessions[sess].id, stat |-> stat]))
    /\ pc' = pc + 1
    /\ UNCHANGED <<sess, regs, made, bags, opt, stat>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

View == <<sess, pc>>

\* Every session was consumed completely: steps of all sessions plus the closing ones
TypeOK == Len(regs) = Len(made) /\ pc <= Len(Events) + 2
=============================================================================
