----------------------------- MODULE MCGrowth -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Growth and Aggregation on all small data sets *)
(* of a family: every order of filling slots, every choice of features.    *)
(***************************************************************************)
EXTENDS Aggregation

CONSTANTS NumCols,   \* set of columns (sequences of bins) for the numerical feature
          CatCols,   \* the same for the categorical feature
          Labels,    \* set of label sequences
          Params     \* set of records agg, mss, msl, maxd, mf, crit, K, kind, strat
N == 5
TrainSet == {1, 2, 3}
ValidSet == {4, 5}

Mk(x1, x2, y, p) ==
  LET w == [r \in 1 .. N |-> IF r = 2 THEN FInt(2) ELSE One]
      ind(r, k) == IF y[r] = k THEN w[r] ELSE Zero IN
  [kind |-> p.kind, K |-> p.K, crit |-> p.crit, agg |-> p.agg, mss |-> p.mss, msl |-> p.msl, maxd |-> p.maxd,
   strat |-> p.strat, mf |-> p.mf, F |-> 2, cat |-> <<FALSE, TRUE>>,
   X |-> [r \in 1 .. N |-> <<x1[r], x2[r]>>], y |-> y, w |-> w,
   wk |-> [k \in 1 .. p.K |-> [r \in 1 .. N |-> ind(r, k - 1)]],
   wy |-> [r \in 1 .. N |-> FMul(w[r], FInt(y[r]))], wyy |-> [r \in 1 .. N |-> FMul(w[r], FInt(y[r] * y[r]))],
   trainSet |-> TrainSet, validSet |-> ValidSet, dir |-> FRat(1, 2), step |-> One, exact |-> TRUE, scale |-> One]

ASSUME TLCSet(1, Force([x \in NumCols \X CatCols \X Labels \X Params |-> Mk(x[1], x[2], x[3], x[4])]))

Done == pending = [k \in {} |-> 0]
Next == GrowthNext \/ (Done /\ UNCHANGED growthVars)
Spec == GrowthInit /\ [][Next]_growthVars

D0 == Data[tid]
Rows == D0.trainSet \cup D0.validSet

\* the slots partition the rows, and a row's slot is where its bins lead
Partition ==
  /\ \A r \in Rows : LET s == Route(tree, D0.X[r]) IN
       \/ s[2] = "leaf"
       \/ s \in DOMAIN pending /\ (r \in pending[s].tr <=> r \in D0.trainSet) /\ (r \in pending[s].va <=> r \in D0.validSet)
  /\ \A k \in DOMAIN pending : \A r \in pending[k].tr \cup pending[k].va : Route(tree, D0.X[r]) = k
  /\ \A v \in 1 .. Len(tree) : tree[v].leaf =>
       /\ tree[v].nt = Cardinality({r \in D0.trainSet : Route(tree, D0.X[r]) = <<v, "leaf">>})
       /\ tree[v].nv = Cardinality({r \in D0.validSet : Route(tree, D0.X[r]) = <<v, "leaf">>})
\* growth obeys its limits
Limits ==
  \A v \in 1 .. Len(tree) :
    /\ D0.maxd >= 0 => tree[v].d <= D0.maxd
    /\ tree[v].p # 0 => tree[v].nt >= D0.msl /\ (D0.agg => tree[v].nv >= D0.msl)
    /\ ~ tree[v].leaf => tree[v].nt >= D0.mss /\ (D0.agg => tree[v].nv >= D0.mss)
    /\ tree[v].p < v
\* any row of bins, seen or not, reaches exactly one leaf of a finished tree
Total == Done => \A a \in 0 .. 3, b \in 0 .. 3 : LET s == Route(tree, <<a, b>>) IN s[2] = "leaf" /\ tree[s[1]].leaf
\* the counting form of the split rule is the existence of a choice of features
ChoiceForm ==
  \A k \in DOMAIN pending :
    LET ob == pending[k]  best == TLCEval(Bests(D0, ob)) IN
    \A f \in 1 .. D0.F : \A cut \in AllCuts(D0, ob, f) :
      BestForSomeChoice(D0, ob, f, cut, best) <=>
      \E C \in SUBSET (1 .. D0.F) :
        /\ Cardinality(C) = D0.mf /\ f \in C
        /\ \A g \in C : FLe(best[g], FAdd(SplitScore(D0, ob.tr, LeftRows(D0, f, cut, ob.tr)), ScoreTol(D0, ob.tr)))
\* a split never increases the weighted impurity
NoLoss ==
  \A k \in DOMAIN pending : \A f \in 1 .. D0.F : \A cut \in AllCuts(D0, pending[k], f) :
    Admissible(D0, pending[k], f, cut) =>
      FLe(NodeScore(D0, pending[k].tr), FAdd(SplitScore(D0, pending[k].tr, LeftRows(D0, f, cut, pending[k].tr)), FRat(1, 1000000)))
\* context tree weighting computes the mix of all prunings, which is convex
Tight(a, b) == FClose(a, b, FRat(1, 1000000000), FRat(1, 1000000000))
CTW ==
  (Done /\ D0.agg) =>
    LET lw == TLCEval(LogWeights(D0, tree)) IN
    /\ Tight(lw[1], PruningLogWeight(D0, tree))
    /\ \A v \in 1 .. Len(tree) : ~ tree[v].leaf => FLe(Zero, Alpha(D0, tree, lw, v)) /\ FLe(Alpha(D0, tree, lw, v), FAdd(One, FRat(1, 1000000000)))
    /\ \A v \in {u \in 1 .. Len(tree) : tree[u].leaf} :
         LET m == TLCEval(Mix(D0, tree, lw, v))  q == TLCEval(PruningMix(D0, tree, v))
             path == {PathUp(tree, v)[i] : i \in 1 .. Len(PathUp(tree, v))} IN
         \A k \in DOMAIN m :
           /\ Tight(m[k], q[k])
           /\ FLe(FMinSet({tree[u].pred[k] : u \in path}), FAdd(m[k], FRat(1, 1000000000)))
           /\ FLe(m[k], FAdd(FMaxSet({tree[u].pred[k] : u \in path}), FRat(1, 1000000000)))
\* probabilities
Simplex ==
  D0.kind = "clf" => \A v \in 1 .. Len(tree) :
    /\ Tight(FSum(tree[v].pred), One)
    /\ \A k \in 1 .. D0.K : FLe(Zero, tree[v].pred[k])

\* constant values for the configurations
QNum == {<<0, 1, 2, 0, 2>>, <<0, 0, 2, 1, 2>>, <<1, 1, 1, 0, 2>>}
QCat == {<<0, 1, 2, 0, 2>>, <<2, 0, 1, 1, 0>>, <<0, 0, 1, 1, 3>>}
QLab == [1 .. 5 -> {0, 1}]
P(kind, K, crit, strat, agg, mss, msl, maxd, mf) ==
  [kind |-> kind, K |-> K, crit |-> crit, strat |-> strat, agg |-> agg, mss |-> mss, msl |-> msl, maxd |-> maxd, mf |-> mf]
QPar == {P("clf", 2, "gini", "binary", TRUE, 2, 1, -1, 2), P("clf", 2, "entropy", "all", FALSE, 2, 1, -1, 1),
         P("clf", 2, "gini", "random", FALSE, 3, 1, 2, 1), P("reg", 1, "mse", "binary", FALSE, 2, 1, 2, 1),
         P("reg", 1, "mse", "binary", TRUE, 2, 1, -1, 2)}
TNum == {x \in [1 .. 5 -> {0, 1, 2}] : x[4] = 0 /\ x[5] = 2}
TCat == {x \in [1 .. 5 -> {0, 1, 2}] : x[4] = 0 /\ x[5] = 1}
TLab == [1 .. 5 -> {0, 1}]
TPar == QPar \cup {P("clf", 3, "gini", "all", FALSE, 2, 1, -1, 2), P("clf", 2, "gini", "binary", TRUE, 2, 2, -1, 1)}
=============================================================================
