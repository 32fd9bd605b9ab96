--------------------------- MODULE TraceBootstrap ---------------------------
(***************************************************************************)
(* Validation of the bootstraps of fitted forests.  A trace is a forest:   *)
(* one event "tree" per tree (class, estimator, in-bag and out-of-bag      *)
(* rows, the weights of its rows), then "end".                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, trees

B == INSTANCE Bootstrap WITH N <- 1, Classes <- {}, Estimators <- {}, draws <- 0, pc <- 0, caller <- 0, w <- 0, train <- 0

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Chk(clause, ok) == IF ok THEN {} ELSE {"C05." \o clause}
SetOf(s) == {s[k] : k \in 1 .. Len(s)}

TreeClauses(e) ==
  LET tr == SetOf(e.train)  va == SetOf(e.valid)
      \* the multiplicity of a row: its weight in the tree against its base weight
      ok(r, m) == FClose(e.w[r], FMul(T.base[r], FInt(m)), FRat(1, 1000000), FInt(0)) IN
  Chk("bags", /\ Len(e.train) = Cardinality(tr) /\ Len(e.valid) = Cardinality(va)
              /\ B!ValidBootstrap(T.n, tr, va, e.mult))
  \cup Chk("weights", \A r \in 1 .. T.n : ok(r, IF r \in tr THEN e.mult[r] ELSE 1))
\* different estimators of a class differ, the same estimator of different classes agree
EndClauses ==
  Chk("distinct", T.n >= 25 => \A p, q \in SetOf(trees) : (p.c = q.c /\ p.j # q.j) => p.mult # q.mult)
  \cup Chk("shared", \A p, q \in SetOf(trees) : p.j = q.j => p.mult = q.mult)
  \cup Chk("number", Len(trees) = T.trees /\ Cardinality({<<t.c, t.j>> : t \in SetOf(trees)}) = T.trees)
  \cup (IF Len(trees) < 100 THEN {} ELSE
        Chk("reach", \A r \in 1 .. T.n :
          LET in == Cardinality({k \in 1 .. Len(trees) : trees[k].mult[r] > 0}) IN
          in * 100 >= 35 * Len(trees) /\ in * 100 <= 90 * Len(trees)))

Step == CASE Ev.t = "tree" ->
               /\ trees' = Append(trees, [c |-> Ev.c, j |-> Ev.j, mult |-> Ev.mult])
               /\ bad' = bad \cup TreeClauses(Ev)
          [] Ev.t = "end" -> bad' = bad \cup EndClauses /\ UNCHANGED trees
          [] Ev.t = "error" -> bad' = bad \cup {"C05.error"} /\ UNCHANGED trees
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ trees = <<>>
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, trees>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
