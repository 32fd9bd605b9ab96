---------------------------- MODULE TraceExtract ----------------------------
(***************************************************************************)
(* Validation of extractions from real Dataset objects.  The raw data are  *)
(* in the trace; each event "extract" gives the options, the numbers of    *)
(* the training and test rows in the order returned, the matrices, the     *)
(* labels and columns_.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, seen

X == INSTANCE Extract WITH Rows <- 0, Values <- {}, States <- {}, Share <- 0, raw <- 0, split <- 0, learnt <- 0, count <- 0

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Chk(clause, ok) == IF ok THEN {} ELSE {"C18." \o clause}
NC == Len(T.cont)
Near(a, b) == (FIsNaN(a) /\ FIsNaN(b)) \/ FClose(a, b, FRat(1, 100000), FRat(1, 100000))

\* the expected row r: continuous columns in the declared order, then the encoded categorical columns
ExpectCont(e) == TLCEval([j \in 1 .. NC |-> IF e.std THEN X!Scaled(T.cont[j], e.train) ELSE T.cont[j]])
ExpectMods(e) == TLCEval([j \in 1 .. Len(T.cat) |-> X!Modalities(T.cat[j], e.train)])
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
EncodeCat(e, mods, j, r) ==
  LET k == X!RankIn(mods[j], T.cat[j][r]) IN
  IF ~ e.onehot THEN <<IF k = 0 THEN FInt(-1) ELSE FInt(k - 1)>>
  ELSE LET kept == X!Kept(mods[j], e.drop) IN [q \in 1 .. Len(kept) |-> IF kept[q] = k THEN FInt(1) ELSE FInt(0)]
ExpectRow(e, cont, mods, r) == [j \in 1 .. NC |-> cont[j][r]] \o Concat([j \in 1 .. Len(T.cat) |-> EncodeCat(e, mods, j, r)])
SameRow(got, want) == Len(got) = Len(want) /\ \A k \in 1 .. Len(got) : Near(got[k], want[k])
ColName(e, mods, j) ==
  IF ~ e.onehot THEN <<T.catname[j]>>
  ELSE LET kept == X!Kept(mods[j], e.drop) IN [q \in 1 .. Len(kept) |-> T.catname[j] \o "#" \o ToString(kept[q] - 1)]
ExpectCols(e, mods) == T.contname \o Concat([j \in 1 .. Len(T.cat) |-> ColName(e, mods, j)])

ExtractClauses(e) ==
  LET cont == ExpectCont(e)  mods == ExpectMods(e)
      labels == X!SortedSeq({T.y[r] : r \in X!SetOf(e.train)})
      lab(r) == IF T.reg THEN T.yf[r] ELSE FInt(X!RankIn(labels, T.y[r]) - 1) IN
  Chk("partition", X!Partition(T.n, e.train, e.test))
  \cup Chk("size", X!TestSize(T.n, e.size, e.test))
  \cup Chk("stratified", T.reg \/ X!Stratified(T.n, T.y, e.test))
  \cup Chk("train", Len(e.xtrain) = Len(e.train) /\ \A k \in DOMAIN e.train : SameRow(e.xtrain[k], ExpectRow(e, cont, mods, e.train[k])))
  \cup Chk("test", Len(e.xtest) = Len(e.test) /\ \A k \in DOMAIN e.test : SameRow(e.xtest[k], ExpectRow(e, cont, mods, e.test[k])))
  \cup Chk("labels", /\ Len(e.ytrain) = Len(e.train) /\ Len(e.ytest) = Len(e.test)
                     /\ \A k \in DOMAIN e.train : FEq(e.ytrain[k], lab(e.train[k]))
                     /\ \A k \in DOMAIN e.test : FEq(e.ytest[k], lab(e.test[k])))
  \cup Chk("columns", e.columns = ExpectCols(e, mods))
  \cup Chk("classes", T.reg \/ e.classes = [k \in DOMAIN labels |-> T.labels[labels[k]]])
  \cup Chk("counts", e.counts = <<T.n, Len(e.train), Len(e.test), NC + Len(T.cat), Len(T.cat), NC, Len(ExpectCols(e, mods))>>)
  \cup Chk("mask", e.mask = IF e.onehot \/ Len(T.cat) = 0 THEN <<>> ELSE [k \in 1 .. NC + Len(T.cat) |-> k > NC])
  \cup Chk("raw", e.rawsame)
  \cup Chk("again", \A f \in seen : (f.rs = e.rs /\ f.size = e.size /\ e.rs # "None") => f.train = e.train /\ f.test = e.test)

Step == CASE Ev.t = "extract" ->
               /\ bad' = bad \cup ExtractClauses(Ev)
               /\ seen' = seen \cup {[rs |-> Ev.rs, size |-> Ev.size, train |-> Ev.train, test |-> Ev.test]}
          [] Ev.t = "undecoded" -> bad' = bad \cup Chk("rows", FALSE) /\ UNCHANGED seen
          [] Ev.t = "error" -> bad' = bad \cup Chk("error", FALSE) /\ UNCHANGED seen
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ seen = {}
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, seen>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
