--------------------------- MODULE TraceLifecycle ---------------------------
(***************************************************************************)
(* Validation of the lives of real forests against Lifecycle.  Events:     *)
(* "op" (an operation and its result) and "obs" (what an object shows:     *)
(* its parameters and, when fitted, its predictions and leaves, next to    *)
(* those of a new forest fitted with what Key demands).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, obj

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Names(t) == {Traces[t].params[k] : k \in 1 .. Len(Traces[t].params)}
L == INSTANCE Lifecycle WITH Objs <- {1, 2, 3}, Params <- {}, Vals <- <<>>, Datas <- {1, 2}, Ops <- {},
                             Start <- {}, Len0 <- 0, hist <- <<>>
Chk(clause, ok) == IF ok THEN {} ELSE {p \o "." \o clause : p \in CLAUSES}
Range(s) == {s[k] : k \in 1 .. Len(s)}
Close(u, v) == Len(u) = Len(v) /\ \A k \in DOMAIN u : FClose(u[k], v[k], FRat(1, 20000), FRat(1, 20000))

ObsClauses(e) ==
  LET o == obj[e.o] IN
  Chk("alive", o.alive)
  \cup Chk("params", e.prm = o.prm)
  \cup Chk("fitted", e.fitted = o.fitted)
  \cup (IF ~ (e.fitted /\ o.fitted) THEN {} ELSE
        Chk("key", e.key = L!Key(o))
        \cup Chk("predictions", Close(e.pred, e.canon))
        \cup Chk("leaves", e.leaves = e.canonleaves))

Step ==
  CASE Ev.t = "op" ->
         /\ bad' = bad \cup Chk("result", Ev.res = L!Result(obj[Ev.op.o], Ev.op))
         /\ obj' = TLCEval(L!Apply(obj, Ev.op))
    [] Ev.t = "obs" -> bad' = bad \cup ObsClauses(Ev) /\ UNCHANGED obj
    [] Ev.t = "remote" -> /\ bad' = bad \cup Chk("remote", Ev.ok /\ Close(Ev.pred, Ev.canon) /\ Ev.leaves = Ev.canonleaves)
                          /\ UNCHANGED obj
    [] Ev.t = "error" -> bad' = bad \cup Chk("error", FALSE) /\ UNCHANGED obj
Init ==
  /\ tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {}
  /\ obj = [o \in {1, 2, 3} |->
              LET f == L!Fresh([p \in Names(tid) |-> 0]) IN
              IF o \in Range(Traces[tid].start) THEN L!Grown(f, 1) ELSE IF o = 1 THEN f ELSE L!NoObj]
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, obj>>
View == <<tid, i, bad>>
Accepted == bad = {}
\* the model's own promise, along the histories of the real objects
Coherent == L!Coherent
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
