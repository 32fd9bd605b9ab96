------------------------------ MODULE Extract ------------------------------
(***************************************************************************)
(* Dataset.extract: one split of the rows, and transformations learnt from *)
(* the training rows.  A raw data set is                                   *)
(*   cont: sequence of columns of numbers, cat: sequence of columns of     *)
(*   modalities (numbers of their rank among all modalities), y: labels    *)
(* Operators on one extraction; the machine at the end extracts repeatedly *)
(* from raw data sets, of which two agree on the training rows.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64

SetOf(s) == {s[k] : k \in 1 .. Len(s)}
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A z \in S : x <= z IN <<m>> \o SortedSeq(S \ {m})

(***************************************************************************)
(* The split.                                                              *)
(***************************************************************************)
Partition(n, train, test) ==
  /\ Len(train) = Cardinality(SetOf(train)) /\ Len(test) = Cardinality(SetOf(test))
  /\ SetOf(train) \cap SetOf(test) = {}
  /\ SetOf(train) \cup SetOf(test) = 1 .. n
\* size: <<"share", a, b>> (a out of b of the rows, up to rounding) or <<"rows", k>>
TestSize(n, size, test) ==
  IF size[1] = "rows" THEN Len(test) = size[2]
  ELSE Len(test) * size[3] > n * size[2] - size[3] /\ Len(test) * size[3] < n * size[2] + size[3]
Count(y, rows, c) == Cardinality({r \in rows : y[r] = c})
\* each class is represented in proportion, up to rounding
Stratified(n, y, test) ==
  \A c \in SetOf(y) :
    LET d == Count(y, SetOf(test), c) * n - Count(y, 1 .. n, c) * Len(test) IN d > -n /\ d < n

(***************************************************************************)
(* The transformations learnt from the rows in train.                      *)
(***************************************************************************)
Seen(col, train) == {r \in SetOf(train) : ~ FIsNaN(col[r])}
MeanOf(col, train) == FDiv(FSumIdx(col, Seen(col, train)), FInt(Cardinality(Seen(col, train))))
\* population standard deviation, one for constant columns
DevOf(col, train) ==
  LET m == TLCEval(MeanOf(col, train))
      S == Seen(col, train)
      sq == TLCEval([r \in 1 .. Len(col) |-> IF r \in S THEN FMul(FSub(col[r], m), FSub(col[r], m)) ELSE FInt(0)])
      v == FDiv(FSumIdx(sq, S), FInt(Cardinality(S))) IN
  IF \A r, q \in S : FEq(col[r], col[q]) THEN FInt(1) ELSE FSqrt(v)
Scaled(col, train) == LET m == TLCEval(MeanOf(col, train))  d == TLCEval(DevOf(col, train)) IN
  TLCEval([r \in 1 .. Len(col) |-> FDiv(FSub(col[r], m), d)])
Modalities(col, train) == SortedSeq({col[r] : r \in SetOf(train)})
RankIn(s, v) == IF \E k \in 1 .. Len(s) : s[k] = v THEN CHOOSE k \in 1 .. Len(s) : s[k] = v ELSE 0
\* the modality without a column: 0 (none) or its rank
Dropped(mods, drop) == CASE drop = "none" -> 0
                         [] drop = "first" -> 1
                         [] drop = "if_binary" -> IF Len(mods) = 2 THEN 1 ELSE 0
\* the ranks that have a column
Kept(mods, drop) == SelectSeq([k \in 1 .. Len(mods) |-> k], LAMBDA k : k # Dropped(mods, drop))

(***************************************************************************)
(* Machine: raw data sets of one continuous column, extracted with one of  *)
(* several random states; "learnt" is what the transformation remembers.   *)
(***************************************************************************)
CONSTANTS Rows, Values, States, Share
VARIABLES raw, split, learnt, count
vars == <<raw, split, learnt, count>>
Splits == {S \in SUBSET (1 .. Rows) : Cardinality(S) = Share}      \* test rows
Learn(data, test) == {<<r, data[r]>> : r \in (1 .. Rows) \ test}
Init == /\ raw \in [1 .. Rows -> Values]
        /\ split \in [States -> Splits]
        /\ learnt = {} /\ count = 0
DoExtract(s) == /\ count < 3 /\ count' = count + 1
                /\ learnt' = Learn(raw, split[s])
                /\ UNCHANGED <<raw, split>>
\* somebody edits a test row between two extractions
EditTest(s, r, v) == /\ count < 3 /\ count' = count + 1 /\ r \in split[s] /\ learnt = Learn(raw, split[s])
                     /\ raw' = [raw EXCEPT ![r] = v]
                     /\ UNCHANGED <<split, learnt>>
Next == (\E s \in States : DoExtract(s) \/ \E r \in 1 .. Rows : \E v \in Values : EditTest(s, r, v)) \/ (count = 3 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* what was learnt knows nothing of any test row: changing them would have given the same
NoLeak == learnt # {} => \E s \in States :
            /\ learnt = Learn(raw, split[s])
            /\ \A other \in [1 .. Rows -> Values] :
                 (\A r \in (1 .. Rows) \ split[s] : other[r] = raw[r]) => Learn(other, split[s]) = learnt
Whole == \A s \in States : Cardinality(split[s]) = Share /\ split[s] \subseteq 1 .. Rows
=============================================================================
