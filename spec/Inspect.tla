------------------------------ MODULE Inspect ------------------------------
(***************************************************************************)
(* What can be seen of a fitted tree: the table of its nodes (get_nodes),  *)
(* the decisions that lead a row to its leaf (path_leaf), its depth and    *)
(* its number of leaves.  A table is a sequence of rows; the node with     *)
(* number k is row k + 1:                                                  *)
(*   [id, p, l, r, leaf, left, d, f, cut, tr, va]                          *)
(* p, l, r are numbers of nodes (-1: none), left says on which side of its *)
(* parent the node is, d its depth, f the feature (from 1) and cut the     *)
(* bins that go left, as a record [cat, thr, part]; tr and va are the      *)
(* numbers of in-bag and out-of-bag samples.                               *)
(*                                                                         *)
(* The state machine grows every small table, then lets a user change the  *)
(* parameters of the fitted forest, pickle and lighten it.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxNodes, F, Bins, Steps, Dirs
VARIABLES tab, phase, par, shown
vars == <<tab, phase, par, shown>>

Row(t, v) == t[v + 1]
Ids(t) == 0 .. Len(t) - 1
GoesLeft(cut, b) == IF cut.cat THEN b \in cut.part ELSE b <= cut.thr

(***************************************************************************)
(* A table that describes a tree.                                          *)
(***************************************************************************)
RootRow(r) == r.p = -1 /\ r.d = 0
WellFormed(t) ==
  /\ Len(t) >= 1 /\ RootRow(t[1])
  /\ \A v \in Ids(t) : Row(t, v).id = v
  /\ \A v \in Ids(t) : LET r == Row(t, v) IN
       IF r.leaf THEN r.l = -1 /\ r.r = -1
       ELSE /\ {r.l, r.r} \subseteq Ids(t) /\ r.l # r.r
            /\ Row(t, r.l).left /\ ~ Row(t, r.r).left
            /\ \A c \in {r.l, r.r} : Row(t, c).p = v /\ c > v /\ Row(t, c).d = r.d + 1
            /\ Row(t, r.l).tr + Row(t, r.r).tr = r.tr
            /\ Row(t, r.l).va + Row(t, r.r).va = r.va
  /\ \A v \in Ids(t) \ {0} : LET p == Row(t, v).p IN
       p \in Ids(t) /\ ~ Row(t, p).leaf /\ v \in {Row(t, p).l, Row(t, p).r}
Leaves(t) == {v \in Ids(t) : Row(t, v).leaf}
NLeaves(t) == Cardinality(Leaves(t))
Depth(t) == LET ds == {Row(t, v).d : v \in Ids(t)} IN CHOOSE d \in ds : \A e \in ds : e <= d
\* from the root to the leaf of row x: the decisions, then the leaf
RECURSIVE Down(_, _, _)
Down(t, v, x) ==
  LET r == Row(t, v) IN
  IF r.leaf THEN <<v>>
  ELSE IF GoesLeft(r.cut, x[r.f]) THEN <<v>> \o Down(t, r.l, x) ELSE <<v>> \o Down(t, r.r, x)
Path(t, x) == Down(t, 0, x)
LeafOf(t, x) == LET p == Path(t, x) IN p[Len(p)]
Decisions(t, x) ==
  LET p == Path(t, x) IN
  [k \in 1 .. Len(p) - 1 |->
     LET r == Row(t, p[k]) IN [d |-> r.d, f |-> r.f, cut |-> r.cut, bin |-> x[r.f], left |-> GoesLeft(r.cut, x[r.f])]]

(***************************************************************************)
(* Growth of tables, and the life of the forest they are read from.  par   *)
(* are the current step and dirichlet; shown the values that the node      *)
(* predictions, losses and weights in the table were computed with.        *)
(***************************************************************************)
Xs == [1 .. F -> Bins]
Reaches(t, x, v) == \E k \in 1 .. Len(Path(t, x)) : Path(t, x)[k] = v
Cuts == [cat : {FALSE}, thr : Bins, part : {{}}] \cup [cat : {TRUE}, thr : {0}, part : SUBSET Bins]
NewRow(v, p, left, d, n) == [id |-> v, p |-> p, l |-> -1, r |-> -1, leaf |-> TRUE, left |-> left, d |-> d, f |-> 0,
                             cut |-> [cat |-> FALSE, thr |-> 0, part |-> {}], tr |-> n, va |-> n]
NoShown == [pred |-> 0, loss |-> 0, lw |-> <<0, 0>>]
Init == /\ tab = <<NewRow(0, -1, FALSE, 0, Cardinality(Xs))>> /\ phase = "grow"
        /\ par = [step |-> 0, dir |-> 0] /\ shown = NoShown
Split ==
  /\ phase = "grow" /\ Len(tab) + 2 <= MaxNodes
  /\ \E v \in Leaves(tab), f \in 1 .. F, cut \in Cuts :
       LET n == Len(tab)
           left == {x \in Xs : Reaches(tab, x, v) /\ GoesLeft(cut, x[f])}
           t2 == [tab EXCEPT ![v + 1].leaf = FALSE, ![v + 1].l = n, ![v + 1].r = n + 1, ![v + 1].f = f, ![v + 1].cut = cut] IN
       /\ left # {} /\ Cardinality(left) < Row(tab, v).tr
       /\ tab' = t2 \o <<NewRow(n, v, TRUE, Row(tab, v).d + 1, Cardinality(left)),
                         NewRow(n + 1, v, FALSE, Row(tab, v).d + 1, Row(tab, v).tr - Cardinality(left))>>
  /\ UNCHANGED <<phase, par, shown>>
Finish == phase = "grow" /\ phase' = "fitted" /\ UNCHANGED <<tab, par, shown>>
SetStep == /\ phase \in {"fitted", "light"}
           /\ \E s \in Steps : par' = [par EXCEPT !.step = s] /\ shown' = [shown EXCEPT !.lw = <<s, par.dir>>]
           /\ UNCHANGED <<tab, phase>>
SetDir == /\ phase = "fitted"     \* a lightened forest rejects it
          /\ \E a \in Dirs : par' = [par EXCEPT !.dir = a] /\ shown' = [pred |-> a, loss |-> a, lw |-> <<par.step, a>>]
          /\ UNCHANGED <<tab, phase>>
Lighten == phase = "fitted" /\ phase' = "light" /\ UNCHANGED <<tab, par, shown>>
Pickle == phase \in {"fitted", "light"} /\ UNCHANGED vars
Next == Split \/ Finish \/ SetStep \/ SetDir \/ Lighten \/ Pickle
Spec == Init /\ [][Next]_vars

Sound == WellFormed(tab)
Counted == Len(tab) = 2 * NLeaves(tab) - 1
Routed == \A x \in Xs :
  /\ \E v \in Leaves(tab) : LeafOf(tab, x) = v /\ \A w \in Leaves(tab) \ {v} : ~ Reaches(tab, x, w)
  /\ Len(Decisions(tab, x)) = Row(tab, LeafOf(tab, x)).d
Counts == \A v \in Ids(tab) : Row(tab, v).tr = Cardinality({x \in Xs : Reaches(tab, x, v)})
Deepest == Depth(tab) = CHOOSE d \in 0 .. MaxNodes : (\E x \in Xs : Len(Path(tab, x)) = d + 1) /\ \A x \in Xs : Len(Path(tab, x)) <= d + 1
Current == shown = [pred |-> par.dir, loss |-> par.dir, lw |-> <<par.step, par.dir>>]
\* a fitted tree keeps its nodes
Kept == [][phase # "grow" => tab' = tab]_vars
=============================================================================
