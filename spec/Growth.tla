------------------------------- MODULE Growth -------------------------------
(***************************************************************************)
(* Growth of one tree of a forest (wildwood/_grow.py, _split.py, _node.py, *)
(* _tree.py) and its predictions (_tree.py).                               *)
(*                                                                         *)
(* A behaviour grows one tree on one data set Data[tid]: the state holds   *)
(* the obligations (slots of the tree that still have to be filled, each   *)
(* with the in-bag and out-of-bag rows that reach it) and the nodes added  *)
(* so far.  Each step fills one slot with a leaf or with a split, whenever *)
(* the stop rules and the split rule allow it.  The order in which slots   *)
(* are filled is free (the code uses a stack).  The features considered at *)
(* a node are a free choice of D.mf among D.F features.                    *)
(*                                                                         *)
(* A data set is a record                                                  *)
(*   kind "clf" or "reg", K classes, crit "gini"/"entropy"/"mse"           *)
(*   agg, mss, msl, maxd (-1: none), strat, mf, F, cat (per feature)       *)
(*   X    bins: X[row][feature]                                            *)
(*   w    effective weight of each row                                     *)
(*   wk   clf: wk[k+1][row] is the row's weight when its label is k else 0 *)
(*   wy, wyy  reg: weight times label, weight times label squared          *)
(*   y    labels (clf: 0..K-1, reg: numbers)                               *)
(*   train, valid  in-bag and out-of-bag rows                              *)
(*   dir, step     smoothing and aggregation step                          *)
(*   exact         weights and labels are such that float32 is exact       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64

\* The data sets, kept in a TLC register so that they are evaluated once only;
\* the modules that extend this one set it: ASSUME TLCSet(1, ...).
Data == TLCGet(1)

VARIABLES tid, pending, tree
growthVars == <<tid, pending, tree>>

Zero == FInt(0)
One == FInt(1)
NegInf == FDiv(FInt(-1), FInt(0))
MaxI(S) == CHOOSE x \in S : \A z \in S : z <= x
MinI(S) == CHOOSE x \in S : \A z \in S : x <= z

(***************************************************************************)
(* Splits.                                                                 *)
(***************************************************************************)
\* a cut: numerical [cat |-> FALSE, thr |-> bin], categorical [cat |-> TRUE, part |-> set of bins]
GoesLeft(cut, bin) == IF cut.cat THEN bin \in cut.part ELSE bin <= cut.thr
LeftRows(D, f, cut, S) == {r \in S : GoesLeft(cut, D.X[r][f])}

ClassW(D, S, k) == FSumIdx(D.wk[k + 1], S)
W(D, S) == FSumIdx(D.w, S)

\* -(weight x impurity) up to a term that is the same for all splits of a node
NodeScore(D, S) ==
  LET sw == W(D, S) IN
  IF D.crit = "mse" THEN LET sy == FSumIdx(D.wy, S) IN FDiv(FMul(sy, sy), sw)
  ELSE FSum([k \in 1 .. D.K |->
         LET c == FSumIdx(D.wk[k], S) IN
         IF D.crit = "gini" THEN FDiv(FMul(c, c), sw)
         ELSE IF FLe(c, Zero) THEN Zero ELSE FMul(c, FLog(FDiv(c, sw)))])

SplitScore(D, S, L) == FAdd(NodeScore(D, L), NodeScore(D, S \ L))

\* accuracy of the single precision scores of the implementation
ScoreTol(D, S) ==
  IF D.crit = "mse" THEN FMul(FRat(1, 50000), FSumIdx(D.wyy, S))
  ELSE FMul(FRat(1, 50000), W(D, S))

\* both children keep enough in-bag samples, and out-of-bag samples with aggregation
Admissible(D, ob, f, cut) ==
  LET L == LeftRows(D, f, cut, ob.tr)
      V == LeftRows(D, f, cut, ob.va) IN
  /\ Cardinality(L) >= D.msl
  /\ Cardinality(ob.tr) - Cardinality(L) >= D.msl
  /\ D.agg => /\ Cardinality(V) >= D.msl
              /\ Cardinality(ob.va) - Cardinality(V) >= D.msl

Present(D, S, f) == {D.X[r][f] : r \in S}

NumCuts(D, ob, f) ==
  LET B == Present(D, ob.tr, f) IN
  IF B = {} THEN {} ELSE {[cat |-> FALSE, thr |-> b] : b \in B \ {MaxI(B)}}

\* the keys by which the bins of a categorical feature are ordered: proportion of class c, or mean label
Orders(D) == IF D.kind = "reg" THEN {0} ELSE IF D.strat = "binary" THEN {1} ELSE 0 .. D.K - 1
Key(D, S, c) ==
  IF D.kind = "reg" THEN FDiv(FSumIdx(D.wy, S), W(D, S)) ELSE FDiv(ClassW(D, S, c), W(D, S))
KeyTol(D) == IF D.kind = "reg" THEN FMul(FRat(1, 100000), D.scale) ELSE FRat(1, 100000)
Keys(D, ob, f, c) ==
  [b \in Present(D, ob.tr, f) |-> Key(D, {r \in ob.tr : D.X[r][f] = b}, c)]
\* prefixes that do not cut through bins with the same key: prefixes in whatever way ties are ordered
CatCuts(D, ob, f, c) ==
  LET key == TLCEval(Keys(D, ob, f, c))
      B == DOMAIN key
      part(b) == {x \in B : FLe(key[x], key[b])} IN
  {[cat |-> TRUE, part |-> part(b)] : b \in
     {z \in B : /\ part(z) # B
                /\ \A x \in B \ part(z) : FLt(FAdd(key[z], KeyTol(D)), key[x])}}
IsPrefix_(D, ob, f, cut, c) ==
  LET key == TLCEval(Keys(D, ob, f, c))
      B == DOMAIN key IN
  \A x \in B \cap cut.part : \A z \in B \ cut.part : FLe(key[x], FAdd(key[z], KeyTol(D)))

BestOf(D, ob, f, cuts) ==
  FMaxSet({SplitScore(D, ob.tr, LeftRows(D, f, cut, ob.tr)) : cut \in {z \in cuts : Admissible(D, ob, f, z)}})

\* the score that examining feature f is sure to reach at this node (-infinity: no admissible split)
BestAlong(D, ob, f) ==
  IF ~ D.cat[f] THEN BestOf(D, ob, f, NumCuts(D, ob, f))
  ELSE LET best == {BestOf(D, ob, f, CatCuts(D, ob, f, c)) : c \in Orders(D)} IN
       IF D.kind = "clf" /\ D.strat = "random" THEN FMinSet(best) ELSE FMaxSet(best)

Bests(D, ob) == [f \in 1 .. D.F |-> BestAlong(D, ob, f)]

(***************************************************************************)
(* Stop rules.                                                             *)
(***************************************************************************)
TooSmall(D, ob) ==
  \/ Cardinality(ob.tr) < D.mss
  \/ D.agg /\ Cardinality(ob.va) < D.mss
TooDeep(D, ob) == D.maxd >= 0 /\ ob.d >= D.maxd
Pure(D, ob) == Cardinality({D.y[r] : r \in ob.tr}) <= 1
\* impurity that single precision cannot tell from zero (it cancels when labels are large against their spread)
NearPure(D, ob) ==
  \/ Pure(D, ob)
  \/ LET total == IF D.crit = "mse" THEN FSumIdx(D.wyy, ob.tr)
                   ELSE IF D.crit = "gini" THEN W(D, ob.tr) ELSE Zero IN
     FLe(FSub(total, NodeScore(D, ob.tr)), ScoreTol(D, ob.tr))
\* an obligation to be a leaf, whatever the features considered
MustStop(D, ob) == TooSmall(D, ob) \/ TooDeep(D, ob) \/ (D.exact /\ Pure(D, ob) /\ ob.d > 0)
\* some choice of the mf features considered has no admissible split
NoSplit(D, best) == Cardinality({f \in 1 .. D.F : FEq(best[f], NegInf)}) >= D.mf
MayStop(D, ob) == TooSmall(D, ob) \/ TooDeep(D, ob) \/ NearPure(D, ob) \/ NoSplit(D, Bests(D, ob))

\* the split is the best of some choice of mf features that contains f
BestForSomeChoice(D, ob, f, cut, best) ==
  LET s == SplitScore(D, ob.tr, LeftRows(D, f, cut, ob.tr))
      ok == {g \in 1 .. D.F : FLe(best[g], FAdd(s, ScoreTol(D, ob.tr)))} IN
  f \in ok /\ Cardinality(ok) >= D.mf
OrderedCut(D, ob, f, cut) ==
  cut.cat => \E c \in Orders(D) :
     /\ IsPrefix_(D, ob, f, cut, c)
     /\ D.strat = "random" /\ D.kind = "clf" =>
          FLe(BestOf(D, ob, f, CatCuts(D, ob, f, c)),
              FAdd(SplitScore(D, ob.tr, LeftRows(D, f, cut, ob.tr)), ScoreTol(D, ob.tr)))

(***************************************************************************)
(* Node statistics.                                                        *)
(***************************************************************************)
NodePred(D, S) ==
  IF D.kind = "reg" THEN <<FDiv(FSumIdx(D.wy, S), W(D, S))>>
  ELSE [k \in 1 .. D.K |-> FDiv(FAdd(FSumIdx(D.wk[k], S), D.dir), FAdd(W(D, S), FMul(FInt(D.K), D.dir)))]
\* out-of-bag loss of a node with prediction p
NodeLoss(D, V, p) ==
  IF D.kind = "reg"
  THEN FAdd(FSub(FSumIdx(D.wyy, V), FMul(FMul(FInt(2), p[1]), FSumIdx(D.wy, V))),
            FMul(FMul(p[1], p[1]), W(D, V)))
  ELSE FSum([k \in 1 .. D.K |->
         LET c == FSumIdx(D.wk[k], V) IN IF FLe(c, Zero) THEN Zero ELSE FNeg(FMul(c, FLog(p[k])))])
\* bound on the error of the single precision loss of the implementation
NodeLossErr(D, V, loss) ==
  LET n == Cardinality(V)
      rel == FMul(FAdd(FRat(1, 200000), FMul(FInt(n), FRat(1, 10000000))), FAbs(loss)) IN
  IF D.kind = "reg"
  THEN LET dp == FMul(FRat(1, 500000), D.scale) IN
       FAdd(rel, FAdd(FMul(FMul(FInt(2), FSqrt(FMul(FAbs(loss), W(D, V)))), dp), FMul(W(D, V), FMul(dp, dp))))
  ELSE FAdd(rel, FMul(FRat(1, 1000000), W(D, V)))

(***************************************************************************)
(* The state machine.                                                      *)
(***************************************************************************)
RootKey == <<0, "root">>
RootOb(D) == [tr |-> D.trainSet, va |-> D.validSet, d |-> 0]
GrowthInit ==
  /\ tid \in DOMAIN Data
  /\ pending = (RootKey :> RootOb(Data[tid]))
  /\ tree = <<>>

Node(D, key, ob, leaf, f, cut) ==
  LET p == TLCEval(NodePred(D, ob.tr))
      loss == IF D.agg THEN NodeLoss(D, ob.va, p) ELSE Zero IN
  [p |-> key[1], d |-> ob.d, leaf |-> leaf, f |-> f, cut |-> cut, l |-> 0, r |-> 0,
   nt |-> Cardinality(ob.tr), nv |-> Cardinality(ob.va),
   pred |-> p, loss |-> TLCEval(loss),
   err |-> TLCEval(IF D.agg THEN NodeLossErr(D, ob.va, loss) ELSE Zero)]
NoCut == [cat |-> FALSE, thr |-> 0]

\* the slot <<parent, side>> is filled with node number Len(tree) + 1
Attach(t, key, node) ==
  LET id == Len(t) + 1
      t2 == IF key[1] = 0 THEN t
            ELSE IF key[2] = "left" THEN [t EXCEPT ![key[1]].l = id]
            ELSE [t EXCEPT ![key[1]].r = id] IN
  Append(t2, node)
Drop(f, key) == [k \in DOMAIN f \ {key} |-> f[k]]

FillLeaf(key) ==
  LET D == Data[tid]  ob == pending[key] IN
  /\ pending' = Drop(pending, key)
  /\ tree' = TLCEval(Attach(tree, key, Node(D, key, ob, TRUE, 0, NoCut)))
  /\ UNCHANGED tid
FillSplit(key, f, cut) ==
  LET D == Data[tid]  ob == pending[key]
      id == Len(tree) + 1
      L == TLCEval(LeftRows(D, f, cut, ob.tr))  V == TLCEval(LeftRows(D, f, cut, ob.va)) IN
  /\ pending' = TLCEval(Drop(pending, key)
        @@ (<<id, "left">> :> [tr |-> L, va |-> V, d |-> ob.d + 1])
        @@ (<<id, "right">> :> [tr |-> ob.tr \ L, va |-> ob.va \ V, d |-> ob.d + 1]))
  /\ tree' = TLCEval(Attach(tree, key, Node(D, key, ob, FALSE, f, cut)))
  /\ UNCHANGED tid

AllCuts(D, ob, f) ==
  IF D.cat[f] THEN {[cat |-> TRUE, part |-> P] : P \in (SUBSET Present(D, ob.tr, f)) \ {{}}}
  ELSE NumCuts(D, ob, f)
MaySplit(D, ob, f, cut) ==
  /\ ~ MustStop(D, ob)
  /\ Admissible(D, ob, f, cut)
  /\ OrderedCut(D, ob, f, cut)
  /\ BestForSomeChoice(D, ob, f, cut, TLCEval(Bests(D, ob)))

GrowthNext ==
  \E key \in DOMAIN pending :
    LET D == Data[tid]  ob == pending[key] IN
    \/ MayStop(D, ob) /\ FillLeaf(key)
    \/ \E f \in 1 .. D.F : \E cut \in AllCuts(D, ob, f) : MaySplit(D, ob, f, cut) /\ FillSplit(key, f, cut)

(***************************************************************************)
(* Routing and predictions.                                                *)
(***************************************************************************)
RECURSIVE RouteFrom(_, _, _)
\* the slot reached by a row of bins x: a leaf number, or the key of a pending slot
RouteFrom(t, v, x) ==
  IF t[v].leaf THEN <<v, "leaf">>
  ELSE LET left == GoesLeft(t[v].cut, x[t[v].f])
           c == IF left THEN t[v].l ELSE t[v].r IN
       IF c = 0 THEN <<v, IF left THEN "left" ELSE "right">> ELSE RouteFrom(t, c, x)
Route(t, x) == IF t = <<>> THEN RootKey ELSE RouteFrom(t, 1, x)

RECURSIVE PathUp(_, _)
PathUp(t, v) == IF t[v].p = 0 THEN <<v>> ELSE <<v>> \o PathUp(t, t[v].p)
=============================================================================
