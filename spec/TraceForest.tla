----------------------------- MODULE TraceForest -----------------------------
(***************************************************************************)
(* Validation of forest predictions.  A trace is a fitted forest: the      *)
(* event "classes" (labels of the caller, in order, and classes_), then    *)
(* batches: per row its number, the answers of the single trees, the slots *)
(* of the per-tree method, the answer of the forest and the label.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, seen

F == INSTANCE Forest WITH Callers <- {}, Trees <- {}, ColOf <- <<>>, Mode <- "sum", Locked <- TRUE,
                          pc <- 0, owner <- 0, out <- 0, tmp <- 0, hist <- 0

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Chk(clause, ok) == IF ok THEN {} ELSE {p \o "." \o clause : p \in CLAUSES}
Tol == FRat(1, 1000000)
Tiny == FRat(1, 1000000)
One == FInt(1)
Same(u, v, s) == Len(u) = Len(v) /\ \A k \in DOMAIN u : FClose(u[k], v[k], FInt(0), FMul(Tol, s))
MaxAbs(vecs) == FMax(One, FMaxSet({FAbs(vecs[t][1]) : t \in DOMAIN vecs}))
\* small regression targets are compared on their own scale
Scale(vecs) == IF T.kind = "reg" THEN FMaxSet({FAbs(vecs[t][1]) : t \in DOMAIN vecs}) ELSE One
\* sum of the positive probabilities of all trees: the normalisation is undefined near zero
Vanishing(vecs) == T.ovr /\ FLt(FSum([t \in DOMAIN vecs |-> vecs[t][2]]), Tiny)

RowClauses(r) ==
  LET s == Scale(r.vecs)
      want == TLCEval(F!Combine(T.kind, T.K, T.ovr, T.nest, r.vecs)) IN
  Chk("trees", Len(r.vecs) = T.trees)
  \cup Chk("finite", \A k \in DOMAIN r.ans : FIsFinite(r.ans[k]))
  \cup Chk("combine", Vanishing(r.vecs) \/ Same(r.ans, want, s))
  \cup Chk("pertree", r.slots = <<>> \/ (Len(r.slots) = Len(r.vecs) /\ \A t \in DOMAIN r.vecs : Same(r.slots[t], r.vecs[t], s)))
  \cup (IF T.kind = "reg" THEN {} ELSE
        Chk("range", \A k \in DOMAIN r.ans : FLe(FNeg(Tiny), r.ans[k]) /\ FLe(r.ans[k], FAdd(One, Tiny)))
        \cup Chk("total", FClose(FSum(r.ans), One, FInt(0), Tiny))
        \cup Chk("label", \E k \in F!Winners(r.ans) : T.classes[k] = r.label))
  \* a row has the same answer in every batch
  \cup Chk("batch", r.row \notin DOMAIN seen \/ Same(seen[r.row].ans, r.ans, s))
  \cup Chk("batchtree", r.row \notin DOMAIN seen \/ \A t \in DOMAIN r.vecs : Same(seen[r.row].vecs[t], r.vecs[t], s))

SumClauses(r) == Chk("once", Same(r.ans, TLCEval(F!Combine(T.kind, T.K, T.ovr, T.nest, r.vecs)), FRat(1, 100)))

Extend(fun, r) == [x \in DOMAIN fun \cup {r.row} |-> IF x \in DOMAIN fun THEN fun[x] ELSE [ans |-> r.ans, vecs |-> r.vecs]]

Step == CASE Ev.t = "classes" -> bad' = bad \cup Chk("classes", Ev.got = T.classes /\ Ev.n = T.K) /\ UNCHANGED seen
          [] Ev.t = "row" -> bad' = bad \cup RowClauses(Ev) /\ seen' = TLCEval(Extend(seen, Ev))
          [] Ev.t = "shape" -> bad' = bad \cup Chk("shape", Ev.got = Ev.want) /\ UNCHANGED seen
          \* replayed interleavings: the answers of stand-in trees, each of which must count once and in its place
          [] Ev.t = "sum" -> bad' = bad \cup SumClauses(Ev) /\ UNCHANGED seen
          [] Ev.t = "slots" -> bad' = bad \cup Chk("slots", Ev.slots = Ev.vecs) /\ UNCHANGED seen
          [] Ev.t = "gap" -> bad' = bad \cup Chk("concurrent", FLe(Ev.gap, Tol)) /\ UNCHANGED seen
          [] Ev.t = "unchanged" -> bad' = bad \cup Chk("unchanged", Ev.got = Ev.want) /\ UNCHANGED seen
          [] Ev.t = "error" -> bad' = bad \cup Chk("error", FALSE) /\ UNCHANGED seen
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ seen = <<>>
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, seen>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
