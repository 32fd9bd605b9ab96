-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* The features considered at a node (_utils.sample_without_replacement):  *)
(* K of P features, drawn one by one from a pool whose last feature takes  *)
(* the place of the one drawn.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MinOf(S) == CHOOSE x \in S : \A z \in S : x <= z
(* how many features max_features stands for, F features: p is             *)
(* [k |-> "all"], [k |-> "sqrt"], [k |-> "log2"], [k |-> "int", v |-> n]   *)
(* or [k |-> "share", v |-> <<a, b>>] (the fraction a / b)                 *)
RECURSIVE Sqrt_(_, _)
Sqrt_(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE Sqrt_(n, r + 1)
RECURSIVE Log2_(_, _)
Log2_(n, r) == IF 2 ^ (r + 1) > n THEN r ELSE Log2_(n, r + 1)
AtLeastOne(x) == IF x < 1 THEN 1 ELSE x
NumFeatures(p, F) ==
  CASE p.k = "all" -> F
    [] p.k = "sqrt" -> AtLeastOne(Sqrt_(F, 0))
    [] p.k = "log2" -> AtLeastOne(Log2_(F, 0))
    [] p.k = "int" -> p.v
    [] p.k = "share" -> AtLeastOne((F * p.v[1]) \div p.v[2])

\* features that can be the best one of those drawn, when they are numbered from the best to the worst of all
CanWin(F, k) == 1 .. F - k + 1

CONSTANTS P, K
VARIABLES pool, out
vars == <<pool, out>>
Init == pool = [i \in 1 .. P |-> i] /\ out = <<>>
Next ==
  /\ Len(out) < K
  /\ \E j \in 1 .. P - Len(out) :
       /\ out' = Append(out, pool[j])
       /\ pool' = [pool EXCEPT ![j] = pool[P - Len(out)]]
Spec == Init /\ [][Next]_vars

Distinct == \A a, b \in 1 .. Len(out) : a # b => out[a] # out[b]
Pool == {pool[j] : j \in 1 .. P - Len(out)} = (1 .. P) \ {out[a] : a \in 1 .. Len(out)}
\* every feature can still be drawn: each arrangement is reached by exactly one sequence of draws
RECURSIVE Arrangements(_)
Arrangements(i) == IF i = 0 THEN 1 ELSE Arrangements(i - 1) * (P - i + 1)
RECURSIVE Total(_)
Total(i) == IF i < 0 THEN 0 ELSE Arrangements(i) + Total(i - 1)
AllReached == TLCGet("stats").distinct = Total(K)
\* the winners of the K-sets are the features of CanWin
Winners == {MinOf(S) : S \in {Z \in SUBSET (1 .. P) : Cardinality(Z) = K}} = CanWin(P, K)
=============================================================================
