---------------------------- MODULE TraceEncoder ----------------------------
(***************************************************************************)
(* Validation of recorded histories of the real encoder: one fit, then     *)
(* batches in any container, order and dtype.  The specification carries   *)
(* for each column what fit learnt and what was observed since.            *)
(***************************************************************************)
EXTENDS Encoder, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, encs, seen

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Chk(prop, clause, ok) == IF prop \in CLAUSES THEN IF ok THEN {} ELSE {prop \o "." \o clause} ELSE {}
Union(f) == UNION {f[k] : k \in DOMAIN f}

(***************************************************************************)
(* Event "fit": declaration, rule, number of rows, columns and the types   *)
(* that came out.  A column has its dtype and number of distinct values,   *)
(* and, by the type that came out, its distinct numbers or its categories. *)
(***************************************************************************)
Expected(e, j) == TypeOfColumn(e.cols[j], Declared(e.decl, j), CatLimit(e.rule, e.n))
FitOk(e) == /\ ValidDeclaration(e.decl, Len(e.cols))
            /\ \A j \in 1 .. Len(e.cols) : e.cols[j].dtype = "free" \/ Expected(e, j) # "error"
StepFit ==
  /\ bad' = bad
       \cup Chk("C03", "valid", Ev.err = ~ FitOk(Ev))
       \cup (IF Ev.err \/ ~ FitOk(Ev) THEN {} ELSE Chk("C03", "type", \A j \in 1 .. Len(Ev.cols) :
              Ev.cols[j].dtype = "free" \/ (Expected(Ev, j) = "cat") = Ev.types[j]))
       \cup (IF Ev.err /\ FitOk(Ev) THEN {p \o ".error" : p \in CLAUSES} ELSE {})
  /\ encs' = IF Ev.err THEN <<>> ELSE Force([j \in 1 .. Len(Ev.cols) |->
       IF Ev.types[j] THEN [cat |-> TRUE, cats |-> SetOf(Ev.cols[j].cats), policy |-> Ev.policy]
       ELSE LET enc == [cat |-> FALSE, vals |-> SetOf(Ev.cols[j].vals), mb |-> Ev.mb] IN
            enc @@ [cuts |-> IF Exact(enc) THEN Cuts(enc) ELSE {}]])
  /\ seen' = IF Ev.err THEN <<>> ELSE [j \in 1 .. Len(Ev.cols) |-> {}]

(***************************************************************************)
(* Event "batch": [err, cols], a column being its cells [v, b].            *)
(***************************************************************************)
Cells(e, j) == e.cols[j]
ShouldReject(e) == \E j \in 1 .. Len(encs) : encs[j].cat /\ Rejected(encs[j], Cells(e, j))
\* the observations of a batch, added to those before
Obs(e, j) == seen[j] \cup {<<c.v, c.b>> : c \in {c \in SetOf(Cells(e, j)) :
                 IF encs[j].cat THEN c.v \in encs[j].cats ELSE c.v # <<>>}}
ColClauses(e, j) ==
  LET enc == encs[j]  o == TLCEval(Obs(e, j)) IN
  IF enc.cat
  THEN Chk("C02", "known", \A c \in SetOf(Cells(e, j)) : c.v \in enc.cats => CatBinOk(enc, o, c.v, c.b))
       \cup Chk("C02", "missing", \A c \in SetOf(Cells(e, j)) : c.v = Missing => CatBinOk(enc, o, c.v, c.b))
       \cup Chk("C02", "unknown", \A c \in SetOf(Cells(e, j)) : Unknown(enc, c.v) => CatBinOk(enc, o, c.v, c.b))
  ELSE Chk("C01", "missing", \A c \in SetOf(Cells(e, j)) : c.v = <<>> => c.b = NumBins(enc))
       \cup Chk("C01", "bin", \A c \in SetOf(Cells(e, j)) : c.v # <<>> => NumBinOk(enc, enc.cuts, o, c.v, c.b))
StepBatch ==
  LET e == Ev IN
  /\ bad' = bad
       \cup Chk("C02", "rejected", ~ e.err => ~ ShouldReject(e))
       \cup Chk("C02", "spurious", e.err => ShouldReject(e))
       \cup Chk("C01", "error", e.err => ShouldReject(e))
       \cup (IF e.err THEN {} ELSE Union([j \in 1 .. Len(encs) |-> TLCEval(ColClauses(e, j))]))
  /\ seen' = IF e.err THEN seen ELSE TLCEval([j \in 1 .. Len(encs) |-> Obs(e, j)])
  /\ UNCHANGED encs

(***************************************************************************)
(* Event "ranks": bins of fitted samples by rank: [n, mb, slack, cells],   *)
(* a cell being [r1, r2, b].  Event "miss": bin of a missing value, mb.    *)
(***************************************************************************)
StepRanks ==
  /\ bad' = bad \cup Chk("C01", "balanced", \A k \in 1 .. Len(Ev.cells) :
              LET c == Ev.cells[k] IN c.b \in 0 .. Ev.mb - 1 /\ RankOk(Ev.n, Ev.mb, Ev.slack, c.r1, c.r2, c.b))
       \cup Chk("C01", "missing", Ev.miss = Ev.mb)
  /\ UNCHANGED <<encs, seen>>
(***************************************************************************)
(* Event "inverse": the cells [v, b, back] or [v, b, lo, hi] of each       *)
(* column: values, bins, and what came back from the bins; <<>> is missing.*)
(***************************************************************************)
\* the intervals of a batch, added to those before, as <<bin, lo, hi>>
Intervals(e, j) == {<<c.b, c.lo, c.hi>> : c \in {c \in SetOf(Cells(e, j)) : c.v # <<>> /\ c.lo # <<>>}}
InvClauses(e, j) ==
  LET enc == encs[j]  cells == SetOf(Cells(e, j)) IN
  IF enc.cat
  THEN Chk("C20", "category", \A c \in cells : CatBackOk(enc, c.v, c.back))
  ELSE LET o == TLCEval(seen[j] \cup Intervals(e, j)) IN
       Chk("C20", "missing", \A c \in cells : c.v = <<>> <=> c.lo = <<>>)
       \cup Chk("C20", "interval", \A c \in cells : (c.v # <<>> /\ c.lo # <<>>) => NumBackOk(enc, enc.cuts, o, c.v, c.b, c.lo, c.hi))
StepInverse ==
  LET e == Ev IN
  /\ bad' = bad \cup Chk("C20", "shape", e.nf = Len(encs) /\ \A j \in 1 .. Len(encs) : e.rows = Len(Cells(e, j)))
       \cup Union([j \in 1 .. Len(encs) |-> TLCEval(InvClauses(e, j))])
  /\ seen' = TLCEval([j \in 1 .. Len(encs) |-> IF encs[j].cat THEN {} ELSE seen[j] \cup Intervals(e, j)])
  /\ UNCHANGED encs
StepError == bad' = bad \cup {p \o ".error" : p \in CLAUSES} /\ UNCHANGED <<encs, seen>>

Step == CASE Ev.t = "fit" -> StepFit
          [] Ev.t = "batch" -> StepBatch
          [] Ev.t = "ranks" -> StepRanks
          [] Ev.t = "inverse" -> StepInverse
          [] Ev.t = "error" -> StepError
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ encs = <<>> /\ seen = <<>>
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, encs, seen>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
