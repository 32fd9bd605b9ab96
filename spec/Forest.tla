------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* Prediction by a forest (forest.py): how the answers of the trees are    *)
(* combined, and the worker threads that do it.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64

(***************************************************************************)
(* Combination, for one row.  vecs[t] is the answer of tree t (a sequence  *)
(* of probabilities, or of one number for regression); trees are ordered   *)
(* by class, nest per class, with one-versus-rest.                         *)
(***************************************************************************)
Zero == FInt(0)
Mean(vecs, k) == FDiv(FSum([t \in 1 .. Len(vecs) |-> vecs[t][k]]), FInt(Len(vecs)))
Combine(kind, K, ovr, nest, vecs) ==
  IF kind = "reg" THEN <<Mean(vecs, 1)>>
  ELSE IF ~ ovr THEN [k \in 1 .. K |-> Mean(vecs, k)]
  ELSE LET s == TLCEval([k \in 1 .. K |-> FSum([j \in 1 .. nest |-> vecs[(k - 1) * nest + j][2]])])
           tot == FSum(s) IN
       IF FLe(tot, Zero) THEN [k \in 1 .. K |-> FRat(1, K)] ELSE [k \in 1 .. K |-> FDiv(s[k], tot)]
\* the classes that have the largest probability, up to rounding
Winners(p) == {k \in DOMAIN p : \A j \in DOMAIN p : FLe(p[j], FAdd(p[k], FRat(1, 100000000)))}

(***************************************************************************)
(* The worker threads.  Each caller of a prediction method has its own     *)
(* output and lock; worker <<c, t>> adds the answer of tree t to the       *)
(* output of caller c ("sum": to the whole output, "col": to the column of *)
(* the tree's class, "slot": into its own slot).  An output is the count   *)
(* of the contributions of each tree to each of its columns.               *)
(***************************************************************************)
CONSTANTS Callers, Trees, ColOf, Mode, Locked
VARIABLES pc, owner, out, tmp, hist
vars == <<pc, owner, out, tmp, hist>>
Workers == Callers \X Trees
Cols == {ColOf[t] : t \in Trees}
Init ==
  /\ pc = [w \in Workers |-> "start"]
  /\ owner = [c \in Callers |-> 0]
  /\ out = [c \in Callers |-> [k \in Cols |-> [t \in Trees |-> 0]]]
  /\ tmp = [w \in Workers |-> <<>>]
  /\ hist = <<>>
Log(w, a) == hist' = Append(hist, <<w[1], w[2], a>>)
Compute(w) == /\ pc[w] = "start" /\ pc' = [pc EXCEPT ![w] = "computed"]
              /\ Log(w, "compute") /\ UNCHANGED <<owner, out, tmp>>
Read(w) == /\ pc[w] = "computed"
           /\ Locked => owner[w[1]] = 0
           /\ owner' = IF Locked THEN [owner EXCEPT ![w[1]] = w[2]] ELSE owner
           /\ tmp' = [tmp EXCEPT ![w] = out[w[1]]]
           /\ pc' = [pc EXCEPT ![w] = "read"]
           /\ Log(w, "read") /\ UNCHANGED out
\* a column is read and written back as a whole, a slot is written on its own
Write(w) ==
  LET c == w[1]  t == w[2]  k == ColOf[t]
      add(col) == [col EXCEPT ![t] = @ + 1] IN
  /\ pc[w] = "read"
  /\ out' = [out EXCEPT ![c] =
       CASE Mode = "sum" -> [j \in Cols |-> add(tmp[w][j])]
         [] Mode = "col" -> [out[c] EXCEPT ![k] = add(tmp[w][k])]
         [] Mode = "slot" -> [out[c] EXCEPT ![k] = [@ EXCEPT ![t] = 1]]]
  /\ owner' = [owner EXCEPT ![c] = 0]
  /\ tmp' = [tmp EXCEPT ![w] = <<>>]
  /\ pc' = [pc EXCEPT ![w] = "done"]
  /\ Log(w, "write")
Finished == \A w \in Workers : pc[w] = "done"
Next == (\E w \in Workers : Compute(w) \/ Read(w) \/ Write(w)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
NoHist == <<pc, owner, out, tmp>>

\* every tree contributed exactly once, where it belongs
Right(c) == \A k \in Cols : \A t \in Trees : out[c][k][t] = IF Mode = "sum" \/ ColOf[t] = k THEN 1 ELSE 0
EachOnce == \A c \in Callers : (\A t \in Trees : pc[<<c, t>>] = "done") => Right(c)
NeverTwice == \A c \in Callers : \A k \in Cols : \A t \in Trees : out[c][k][t] <= 1
\* prints every complete interleaving
Emit == Finished => PrintT("SCHED " \o ToString(hist))
=============================================================================
