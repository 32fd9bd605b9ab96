---------------------------- MODULE TraceGrowth ----------------------------
(***************************************************************************)
(* Validation of recorded trees.  A trace is one fitted tree: its data and *)
(* parameters, its nodes in the order of their numbers, and probe rows     *)
(* with the leaf and the prediction the code gave for them.  Every node    *)
(* must be an action of Growth that its rules allow, and every probe must  *)
(* be answered as Aggregation says.  A clause that fails is named in `bad' *)
(* (clauses of the properties listed in CLAUSES only).                     *)
(***************************************************************************)
EXTENDS Aggregation, Json, IOUtils

CONSTANT CLAUSES   \* the properties whose clauses are evaluated

VARIABLES i, bad, lw, le
vars == <<growthVars, i, bad, lw, le>>

Draw == INSTANCE Draw WITH P <- 1, K <- 1, pool <- <<>>, out <- <<>>
RawTraces == ndJsonDeserialize(IOEnv.TRACES)

(***************************************************************************)
(* The data set of a trace: labels of the (binary) problem of the tree and *)
(* effective weights = sample weight x class weight x multiplicity.        *)
(***************************************************************************)
Derive(T) ==
  LET n == Len(T.X)
      y == IF T.kind = "reg" THEN T.y
           ELSE [r \in 1 .. n |-> IF T.cls < 0 THEN T.y[r] ELSE IF T.y[r] = T.cls THEN 1 ELSE 0]
      K == IF T.kind = "reg" THEN 1 ELSE T.K
      cnt == IF T.kind = "reg" THEN <<>> ELSE [k \in 1 .. K |-> Cardinality({r \in 1 .. n : y[r] = k - 1})]
      nk == IF T.kind = "reg" THEN 1 ELSE Cardinality({y[r] : r \in 1 .. n})
      cw(r) == IF T.kind = "reg" \/ T.cw = "none" THEN One ELSE FRat(n, nk * cnt[y[r] + 1])
      w == Force([r \in 1 .. n |-> FMul(FMul(T.sw[r], cw(r)), FInt(T.mult[r]))]) IN
  Force([kind |-> T.kind, K |-> K, crit |-> T.crit, agg |-> T.agg, mss |-> T.mss, msl |-> T.msl, maxd |-> T.maxd,
   strat |-> T.strat, mf |-> Draw!NumFeatures(T.mfp, Len(T.cat)), F |-> Len(T.cat), cat |-> T.cat, X |-> T.X, y |-> y, w |-> w,
   wk |-> IF T.kind = "reg" THEN <<>> ELSE [k \in 1 .. K |-> [r \in 1 .. n |-> IF y[r] = k - 1 THEN w[r] ELSE Zero]],
   wy |-> IF T.kind = "reg" THEN FMulSeq(w, y) ELSE <<>>,
   wyy |-> IF T.kind = "reg" THEN FMulSeq(w, FMulSeq(y, y)) ELSE <<>>,
   trainSet |-> {T.train[j] : j \in 1 .. Len(T.train)}, validSet |-> {T.valid[j] : j \in 1 .. Len(T.valid)},
   dir |-> T.dir, step |-> T.step, exact |-> T.exact, full |-> T.full,
   scale |-> IF T.kind = "reg" THEN FMaxSet({FAbs(y[r]) : r \in 1 .. n} \cup {FRat(1, 1000000)}) ELSE One])

ASSUME TLCSet(2, RawTraces)
Traces == TLCGet(2)
ASSUME TLCSet(1, Force([t \in 1 .. Len(Traces) |-> Derive(Traces[t])]))

Chk(prop, clause, ok) == IF prop \in CLAUSES THEN IF ok THEN {} ELSE {prop \o "." \o clause} ELSE {}

T == Traces[tid]
D0 == Data[tid]
Ev == T.ev[i]

Close(a, b) == FClose(a, b, FRat(1, 20000), FMul(FRat(1, 1000000), D0.scale))

(***************************************************************************)
(* Event "node": [p, side, d, leaf, f, iscat, thr, part, l, r, nt, nv, wt, *)
(* wv, pred, rt, rv]  (numbers from 1, parent 0 for the root; rt, rv the   *)
(* recorded rows when available).                                          *)
(***************************************************************************)
SetOf(s) == {s[j] : j \in 1 .. Len(s)}
CutOf(e) == IF e.iscat THEN [cat |-> TRUE, part |-> SetOf(e.part)] ELSE [cat |-> FALSE, thr |-> e.thr]
IsNode(k) == k \in 1 .. T.nn /\ T.ev[k].t = "node"
\* the events of the nodes are T.ev[1 .. T.nn], in order
NodeClauses(e, id, key) ==
  LET ob == pending[key]
      cut == TLCEval(CutOf(e))
      full == D0.full \/ Cardinality(ob.tr) <= 60   \* in the large trees: at the nodes that are small enough
      best == TLCEval(IF full THEN Bests(D0, ob) ELSE <<>>) IN
  \* C06: the node holds exactly the rows that reach its slot
  Chk("C06", "depth", e.d = ob.d)
  \cup Chk("C06", "counts", e.nt = Cardinality(ob.tr) /\ e.nv = Cardinality(ob.va))
  \cup Chk("C06", "weights", Close(e.wt, W(D0, ob.tr)) /\ (D0.agg => Close(e.wv, W(D0, ob.va))))
  \cup Chk("C06", "rows", T.rows => SetOf(e.rt) = ob.tr /\ SetOf(e.rv) = ob.va
                                     /\ Len(e.rt) = Cardinality(ob.tr) /\ Len(e.rv) = Cardinality(ob.va))
  \cup Chk("C06", "children", ~ e.leaf =>
       /\ e.l # e.r
       /\ \A c \in {e.l, e.r} : c > id /\ IsNode(c) /\ T.ev[c].p = id
       /\ T.ev[e.l].side = "left" /\ T.ev[e.r].side = "right")
  \cup Chk("C06", "unseen", (~ e.leaf /\ e.iscat) => cut.part \subseteq Present(D0, ob.tr, e.f))
  \cup Chk("C06", "proper", ~ e.leaf => LET L == LeftRows(D0, e.f, cut, ob.tr) IN L # {} /\ L # ob.tr)
  \* C07: the limits hold, and growth stops only when it must
  \cup Chk("C07", "max_depth", (D0.maxd >= 0 => ob.d <= D0.maxd) /\ (~ e.leaf => ~ TooDeep(D0, ob)))
  \cup Chk("C07", "min_samples_split", ~ e.leaf => ~ TooSmall(D0, ob))
  \cup Chk("C07", "min_samples_leaf", ~ e.leaf => Admissible(D0, ob, e.f, cut))
  \cup Chk("C07", "pure", ~ e.leaf => ~ MustStop(D0, ob))
  \cup Chk("C07", "stop", e.leaf =>
        TooSmall(D0, ob) \/ TooDeep(D0, ob) \/ NearPure(D0, ob) \/ NoSplit(D0, IF full THEN best ELSE Bests(D0, ob)))
  \* C08: the split is the best one
  \cup Chk("C08", "kind", ~ e.leaf => e.iscat = D0.cat[e.f])
  \cup Chk("C08", "order", ~ e.leaf => OrderedCut(D0, ob, e.f, cut))
  \cup Chk("C08", "best", (~ e.leaf /\ full) => BestForSomeChoice(D0, ob, e.f, cut, best))
  \* C09: the prediction of the node
  \cup (LET p == TLCEval(NodePred(D0, ob.tr)) IN
        Chk("C09", "node", Len(e.pred) = Len(p) /\ \A k \in 1 .. Len(p) : Close(e.pred[k], p[k]))
        \cup Chk("C16", "node", Len(e.pred) = Len(p) /\ \A k \in 1 .. Len(p) : Close(e.pred[k], p[k])))
  \cup Chk("C16", "weights", Close(e.wt, W(D0, ob.tr)) /\ (D0.agg => Close(e.wv, W(D0, ob.va))))
  \cup Chk("C16", "best", (~ e.leaf /\ full) => BestForSomeChoice(D0, ob, e.f, cut, best))

\* a node that cannot be placed in the tree ends the trace
Placeable(e) ==
  /\ <<e.p, e.side>> \in DOMAIN pending
  /\ e.leaf \/ e.f \in 1 .. D0.F
StepNode ==
  /\ Ev.t = "node"
  /\ IF Placeable(Ev)
     THEN LET key == <<Ev.p, Ev.side>> IN
          /\ bad' = bad \cup TLCEval(NodeClauses(Ev, i, key))
          /\ IF Ev.leaf THEN FillLeaf(key) ELSE FillSplit(key, Ev.f, CutOf(Ev))
     ELSE /\ bad' = bad \cup {p \o ".slot" : p \in CLAUSES}
          /\ UNCHANGED growthVars
  /\ UNCHANGED <<lw, le>>

(***************************************************************************)
(* Event "grown": all slots are filled.                                    *)
(***************************************************************************)
StepGrown ==
  /\ Ev.t = "grown"
  /\ bad' = bad \cup Chk("C06", "complete", DOMAIN pending = {}) \cup Chk("C06", "number", Len(tree) = T.nn)
  /\ IF D0.agg /\ DOMAIN pending = {}
     THEN lw' = TLCEval(LogWeights(D0, tree)) /\ le' = TLCEval(LogErrs(D0, tree))
     ELSE lw' = <<>> /\ le' = <<>>
  /\ UNCHANGED growthVars

(***************************************************************************)
(* Event "probe": [x, leaf, pred, depth], answers of the code for one row. *)
(***************************************************************************)
ProbeClauses(e) ==
  LET s == Route(tree, e.x) IN
  IF s[2] # "leaf" THEN Chk("C06", "route", FALSE)
  ELSE
  LET leaf == s[1]
      path == PathUp(tree, leaf)
      pset == SetOf(path) IN
  Chk("C06", "route", e.leaf = leaf)
  \cup Chk("C09", "leaf", ~ D0.agg => /\ Len(e.pred) = Len(tree[leaf].pred)
                                     /\ \A k \in 1 .. Len(e.pred) : Close(e.pred[k], tree[leaf].pred[k]))
  \cup Chk("C10", "leaf", ~ D0.agg => \A k \in 1 .. Len(e.pred) : Close(e.pred[k], tree[leaf].pred[k]))
  \cup (IF ~ D0.agg THEN {} ELSE
        LET m == TLCEval(Mix(D0, tree, lw, leaf)) IN
        Chk("C10", "mix", /\ Len(e.pred) = Len(m)
                          /\ \A k \in 1 .. Len(m) : FClose(e.pred[k], m[k], Zero, MixTol(D0, tree, le, path, k)))
        \cup Chk("C16", "mix", \A k \in 1 .. Len(m) : FClose(e.pred[k], m[k], Zero, MixTol(D0, tree, le, path, k)))
        \cup Chk("C10", "convex", \A k \in 1 .. Len(m) :
               LET tol == FMul(FMul(FInt(Len(path) + 3), FRat(1, 1000000)), D0.scale) IN
               /\ FLe(FSub(FMinSet({tree[v].pred[k] : v \in pset}), tol), e.pred[k])
               /\ FLe(e.pred[k], FAdd(FMaxSet({tree[v].pred[k] : v \in pset}), tol)))
        \cup Chk("C10", "prunings", CountPrunings(tree, 1, 60) <= 60 =>
               LET q == TLCEval(PruningMix(D0, tree, leaf)) IN
               \A k \in 1 .. Len(m) : FClose(e.pred[k], q[k], Zero, MixTol(D0, tree, le, path, k)))
        \cup Chk("C10", "depth", Len(e.depth) = 1 =>
               LET slack == FSum([j \in 1 .. Len(path) |-> FAdd(FMul(D0.step, tree[path[j]].err), le[path[j]])]) IN
               FClose(e.depth[1], MixDepth(D0, tree, lw, leaf), FRat(1, 100000),
                      FMul(FInt(Len(path)), FMin(One, FMul(FInt(2), slack))))))
StepProbe ==
  /\ Ev.t = "probe"
  /\ bad' = bad \cup (IF DOMAIN pending = {} /\ tree # <<>> THEN TLCEval(ProbeClauses(Ev)) ELSE {})
  /\ UNCHANGED <<growthVars, lw, le>>

\* Event "error": the code failed on valid input
StepError ==
  /\ Ev.t = "error"
  /\ bad' = bad \cup {p \o ".error" : p \in CLAUSES}
  /\ UNCHANGED <<growthVars, lw, le>>

Init == GrowthInit /\ i = 1 /\ bad = {} /\ lw = <<>> /\ le = <<>>
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ StepNode \/ StepGrown \/ StepProbe \/ StepError
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_vars

View == <<tid, i, bad>>
Accepted == bad = {}
\* every event of every trace was consumed
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
