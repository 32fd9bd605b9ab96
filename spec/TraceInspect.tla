---------------------------- MODULE TraceInspect ----------------------------
(***************************************************************************)
(* What real forests show of their trees, at several moments of their      *)
(* lives.  Events: "op" (a change of a parameter, a pickle, ...), "table"  *)
(* (the nodes of one tree, with the depth and number of leaves it claims), *)
(* "row" (the decisions, leaf and prediction of one tree for one row).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, tabs, fresh

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
I == INSTANCE Inspect WITH MaxNodes <- 0, F <- 0, Bins <- {}, Steps <- {}, Dirs <- {}, tab <- <<>>, phase <- "grow",
                           par <- <<>>, shown <- <<>>
Chk(clause, ok) == IF ok THEN {} ELSE {p \o "." \o clause : p \in CLAUSES}
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
One == FInt(1)
Zero == FInt(0)

\* a row of a recorded table as Inspect has it; cut: what goes left
CutOf(r) == IF r.iscat THEN [cat |-> TRUE, thr |-> 0, part |-> SetOf(r.part)] ELSE [cat |-> FALSE, thr |-> r.thr, part |-> {}]
TableOf(e) == [k \in 1 .. Len(e.rows) |->
  LET r == e.rows[k] IN
  [id |-> r.id, p |-> r.p, l |-> r.l, r |-> r.r, leaf |-> r.leaf, left |-> r.left, d |-> r.d, f |-> r.f, cut |-> CutOf(r),
   tr |-> r.tr, va |-> r.va]]
\* numbers are compared with what the table can show: labels of classes are printed with two digits
PredTol == IF T.clf THEN FRat(6, 1000) ELSE FMul(T.scale, FRat(1, 20000))
SameNum(u, v) == Len(u) = Len(v) /\ \A k \in DOMAIN u : FClose(u[k], v[k], FRat(1, 1000000), FRat(1, 1000000))

LossTerm(e, k) == FNeg(FMul(e.step, e.rows[k].loss))
WeightOk(e, k) ==
  LET r == e.rows[k] a == LossTerm(e, k) IN
  FClose(r.lw, IF r.leaf THEN a ELSE FLogMeanExp(a, FAdd(e.rows[r.l + 1].lw, e.rows[r.r + 1].lw)),
         FRat(1, 50000), FRat(1, 1000))
Spans(e) == \A k \in 1 .. Len(e.rows) :
  LET r == e.rows[k] IN
  /\ r.et - r.st = r.tr /\ r.ev - r.sv = r.va
  /\ ~ r.leaf => LET a == e.rows[r.l + 1]  b == e.rows[r.r + 1] IN
       /\ a.st = r.st /\ a.et = b.st /\ b.et = r.et
       /\ a.sv = r.sv /\ a.ev = b.sv /\ b.ev = r.ev
\* the weights of the samples of two children add up to those of their parent
Heavy(e) == e.hasw => \A k \in 1 .. Len(e.rows) :
  LET r == e.rows[k] IN
  ~ r.leaf => LET a == e.rows[r.l + 1]  b == e.rows[r.r + 1]  tol == FRat(1, 20000) IN
       FClose(FAdd(a.wt, b.wt), r.wt, tol, tol) /\ FClose(FAdd(a.wv, b.wv), r.wv, tol, tol)
TableClauses(e) ==
  LET t == TLCEval(TableOf(e)) IN
  IF ~ I!WellFormed(t) THEN Chk("table", FALSE)
  ELSE Chk("depth", e.depth = I!Depth(t)) \cup Chk("actual_depth", e.adepth = I!Depth(t))
    \cup Chk("n_leaves", e.nleaves = I!NLeaves(t))
    \cup Chk("spans", Spans(e))
    \cup Chk("sample_weights", Heavy(e))
    \cup Chk("root", t[1].tr = e.ntrain /\ t[1].va = e.nvalid)
    \cup Chk("weights", T.agg => \A k \in 1 .. Len(e.rows) : WeightOk(e, k))
    \cup (IF e.tree \in DOMAIN tabs
          THEN LET o == tabs[e.tree] IN
               Chk("kept", TableOf(o) = t)
               \cup Chk("kept_values", e.tree \in fresh \/
                          (Len(o.rows) = Len(e.rows) /\ \A k \in 1 .. Len(e.rows) :
                             FEq(o.rows[k].loss, e.rows[k].loss) /\ SameNum(o.rows[k].pred, e.rows[k].pred)))
          ELSE {})

\* the mix of the nodes on the path, from the leaf up
RECURSIVE Mix(_, _, _, _)
Mix(e, path, k, p) ==
  IF k = 0 THEN p
  ELSE LET r == e.rows[path[k] + 1]
           a == FMul(FRat(1, 2), FExp(FSub(LossTerm(e, path[k] + 1), r.lw))) IN
       Mix(e, path, k - 1, TLCEval([c \in DOMAIN p |-> FAdd(FMul(a, r.pred[c]), FMul(FSub(One, a), p[c]))]))
Known(e) == e.tree \in DOMAIN tabs /\ I!WellFormed(TableOf(tabs[e.tree]))
Dec(p) == [k \in 1 .. Len(p) |->
  [d |-> p[k].d, f |-> p[k].f, cut |-> CutOf(p[k]), bin |-> p[k].bin, left |-> p[k].side = "left"]]
RowClauses(e) ==
  LET tb == tabs[e.tree]
      t == TLCEval(TableOf(tb))
      path == TLCEval(I!Path(t, e.x))
      leaf == path[Len(path)]
      lp == tb.rows[leaf + 1].pred
      want == TLCEval(IF T.agg THEN Mix(tb, path, Len(path) - 1, lp) ELSE lp) IN
  Chk("leaf", e.leaf = leaf)
  \cup Chk("path", e.haspath => Dec(e.path) = I!Decisions(t, e.x))
  \cup Chk("prediction", Len(want) = Len(e.pred) /\ \A c \in DOMAIN want :
              FClose(want[c], e.pred[c], FRat(1, 1000), PredTol))

Step ==
  CASE Ev.t = "op" ->
         /\ bad' = bad \cup Chk("op", Ev.ok)
         /\ fresh' = IF Ev.op = "dir" THEN 1 .. T.trees ELSE fresh
         /\ UNCHANGED tabs
    [] Ev.t = "table" ->
         /\ bad' = bad \cup TLCEval(TableClauses(Ev))
         /\ tabs' = [t \in DOMAIN tabs \cup {Ev.tree} |-> IF t = Ev.tree THEN Ev ELSE tabs[t]]
         /\ fresh' = fresh \ {Ev.tree}
    [] Ev.t = "row" -> /\ bad' = bad \cup (IF Known(Ev) THEN TLCEval(RowClauses(Ev)) ELSE {})
                       /\ UNCHANGED <<tabs, fresh>>
    [] Ev.t = "error" -> bad' = bad \cup Chk("error", FALSE) /\ UNCHANGED <<tabs, fresh>>
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ tabs = <<>> /\ fresh = {}
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, tabs, fresh>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
