---------------------------- MODULE Aggregation ----------------------------
(***************************************************************************)
(* The prediction of a grown tree with aggregation.  PruningMix is the     *)
(* definition a user relies on: the exponentially weighted average of all  *)
(* prunings.  Mix is the recursive computation (context tree weighting,    *)
(* Algorithm 1 of the paper) which the code implements; MCAggregation      *)
(* checks that the two agree.                                              *)
(***************************************************************************)
EXTENDS Growth

LossTerm(D, t, v) == FNeg(FMul(D.step, t[v].loss))

\* log weight of the subtree below v, for all v (children have larger numbers than parents)
LogWeights(D, t) ==
  LET RECURSIVE up(_, _)
      up(v, acc) ==   \* acc: log weights of the nodes v+1 .. Len(t)
        IF v = 0 THEN acc
        ELSE LET a == LossTerm(D, t, v)
                 lw == IF t[v].leaf THEN a ELSE FLogMeanExp(a, FAdd(acc[t[v].l - v], acc[t[v].r - v])) IN
             up(v - 1, <<lw>> \o acc) IN
  up(Len(t), <<>>)

\* bound on the error of the log weights of the implementation
LogErrs(D, t) ==
  LET RECURSIVE up(_, _)
      up(v, acc) ==
        IF v = 0 THEN acc
        ELSE LET e == FMul(D.step, t[v].err) IN
             up(v - 1, <<IF t[v].leaf THEN e ELSE FMax(e, FAdd(acc[t[v].l - v], acc[t[v].r - v]))>> \o acc) IN
  up(Len(t), <<>>)

\* weight of node v against the subtree below it
Alpha(D, t, lw, v) == FMul(FRat(1, 2), FExp(FSub(LossTerm(D, t, v), lw[v])))

RECURSIVE MixUp(_, _, _, _, _)
MixUp(D, t, lw, v, p) ==
  IF t[v].p = 0 THEN p
  ELSE LET u == t[v].p
           a == Alpha(D, t, lw, u) IN
       MixUp(D, t, lw, u, TLCEval([k \in DOMAIN p |-> FAdd(FMul(a, t[u].pred[k]), FMul(FSub(One, a), p[k]))]))
Mix(D, t, lw, leaf) == MixUp(D, t, lw, leaf, t[leaf].pred)
\* the same mix, of the depths of the nodes on the path
RECURSIVE DepthUp(_, _, _, _, _)
DepthUp(D, t, lw, v, d) ==
  IF t[v].p = 0 THEN d
  ELSE LET u == t[v].p  a == Alpha(D, t, lw, u) IN
       DepthUp(D, t, lw, u, TLCEval(FAdd(FMul(a, FInt(t[u].d)), FMul(FSub(One, a), d))))
MixDepth(D, t, lw, leaf) == DepthUp(D, t, lw, leaf, FInt(t[leaf].d))

\* accuracy of component k of the mix: 0..spread of the path, plus rounding
Spread(t, path, k) ==
  FSub(FMaxSet({t[v].pred[k] : v \in path}), FMinSet({t[v].pred[k] : v \in path}))
MixTol(D, t, le, path, k) ==
  LET slack == FSum([i \in 1 .. Len(path) |-> FAdd(FMul(D.step, t[path[i]].err), le[path[i]])])
      set == {path[i] : i \in 1 .. Len(path)} IN
  FAdd(FMul(Spread(t, set, k), FMin(One, FMul(FInt(2), slack))),
       FMul(FMul(FInt(Len(path) + 3), FRat(1, 1000000)), D.scale))

(***************************************************************************)
(* All prunings.  A pruning is identified by the set of its leaves.        *)
(***************************************************************************)
RECURSIVE CountPrunings(_, _, _)
CountPrunings(t, v, cap) ==
  IF t[v].leaf THEN 1
  ELSE LET a == CountPrunings(t, t[v].l, cap)  b == CountPrunings(t, t[v].r, cap) IN
       IF a > cap \/ b > cap \/ a * b + 1 > cap THEN cap + 1 ELSE a * b + 1
RECURSIVE Prunings(_, _)
Prunings(t, v) ==
  IF t[v].leaf THEN {{v}}
  ELSE {{v}} \cup {a \cup b : a \in Prunings(t, t[v].l), b \in Prunings(t, t[v].r)}
\* nodes of the pruning that are not leaves of the full tree: its internal nodes and its internal leaves
PriorExp(t, P) == (Cardinality(P) - 1) + Cardinality({v \in P : ~ t[v].leaf})
LogPosterior(D, t, P) ==
  LET RECURSIVE sum(_)
      sum(S) == IF S = {} THEN Zero
                ELSE LET v == CHOOSE v \in S : TRUE IN FAdd(t[v].loss, sum(S \ {v})) IN
  FSub(FNeg(FMul(D.step, sum(P))), FMul(FInt(PriorExp(t, P)), FLog(FInt(2))))
RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq_(S \ {x})
PruningMix(D, t, leaf) ==
  LET ps == TLCEval(SetToSeq_(Prunings(t, 1)))
      lp == TLCEval([i \in 1 .. Len(ps) |-> LogPosterior(D, t, ps[i])])
      m == FMaxSet({lp[i] : i \in 1 .. Len(ps)})
      pw == TLCEval([i \in 1 .. Len(ps) |-> FExp(FSub(lp[i], m))])
      path == {PathUp(t, leaf)[i] : i \in 1 .. Len(PathUp(t, leaf))}
      at(i) == CHOOSE v \in ps[i] : v \in path
      tot == FSum(pw) IN
  [k \in DOMAIN t[leaf].pred |->
     FDiv(FSum([i \in 1 .. Len(ps) |-> FMul(pw[i], t[at(i)].pred[k])]), tot)]
\* the log weight of the root is the log of the total weight of the prunings
PruningLogWeight(D, t) ==
  LET ps == TLCEval(SetToSeq_(Prunings(t, 1)))
      lp == TLCEval([i \in 1 .. Len(ps) |-> LogPosterior(D, t, ps[i])])
      m == FMaxSet({lp[i] : i \in 1 .. Len(ps)}) IN
  FAdd(m, FLog(FSum([i \in 1 .. Len(ps) |-> FExp(FSub(lp[i], m))])))
=============================================================================
