------------------------------ MODULE BitPack ------------------------------
(***************************************************************************)
(* The packed storage of the bins (preprocessing/features_bitarray.py).    *)
(*                                                                         *)
(* content is what a user relies on: a matrix of numbers, written column   *)
(* by column.  words is how it is kept: each column has its own range of   *)
(* W-bit words, a word holds W \div b values of b bits, the first value in *)
(* the highest bits, and the values of the last word are left-aligned.     *)
(* ReadBack says that the second implements the first, whatever was in the *)
(* memory before and in whatever order columns are written and rewritten.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W, Maxs, Rows

VARIABLES n, maxs, words, content
vars == <<n, maxs, words, content>>
Cols == 1 .. Len(maxs)

(* layout *)
NBits(m) == IF m <= 1 THEN 1 ELSE CHOOSE b \in 1 .. W : m < 2 ^ b /\ m >= 2 ^ (b - 1)
PerWord(m) == W \div NBits(m)
NWords(m) == (n + PerWord(m) - 1) \div PerWord(m)
RECURSIVE Offset(_)
Offset(j) == IF j = 1 THEN 0 ELSE Offset(j - 1) + NWords(maxs[j - 1])
Size == Offset(Len(maxs)) + NWords(maxs[Len(maxs)])

(* writing a column, value by value: acc is the word being filled *)
RECURSIVE PackFrom(_, _, _, _)
PackFrom(col, b, k, i) ==      \* the words holding col[i..], k values per word
  IF i > Len(col) THEN <<>>
  ELSE LET last == IF i + k - 1 <= Len(col) THEN i + k - 1 ELSE Len(col)
           RECURSIVE acc(_, _)
           acc(j, w) == IF j > last THEN w ELSE acc(j + 1, w * 2 ^ b + col[j])
           w == acc(i, 0) IN
       <<w * 2 ^ ((k - (last - i + 1)) * b)>> \o PackFrom(col, b, k, i + k)
Pack(col, m) == PackFrom(col, NBits(m), PerWord(m), 1)

(* reading a cell; rows and columns count from 1 *)
Cell(i, j) ==
  LET b == NBits(maxs[j])  k == PerWord(maxs[j])
      w == words[Offset(j) + (i - 1) \div k + 1]
      shift == (k - 1 - ((i - 1) % k)) * b IN
  (w \div 2 ^ shift) % 2 ^ b

Unwritten == <<>>
Garbage == 2 ^ W - 1
Init ==
  /\ n \in Rows
  /\ maxs \in Maxs \X Maxs
  /\ words = [k \in 1 .. Size |-> Garbage]
  /\ content = [j \in Cols |-> Unwritten]
Write(j, col) ==
  /\ content' = [content EXCEPT ![j] = col]
  /\ words' = LET p == Pack(col, maxs[j])  o == Offset(j) IN
              [k \in 1 .. Size |-> IF k > o /\ k <= o + Len(p) THEN p[k - o] ELSE words[k]]
  /\ UNCHANGED <<n, maxs>>
Constant(m) == [i \in 1 .. n |-> m]
Next ==
  \E j \in Cols :
    \/ content[j] = Unwritten /\ \E col \in [1 .. n -> 0 .. maxs[j]] : Write(j, col)
    \/ content[j] # Unwritten /\ \E col \in {Constant(0), Constant(maxs[j])} : Write(j, col)
Spec == Init /\ [][Next]_vars

ReadBack == \A j \in Cols : content[j] # Unwritten => \A i \in 1 .. n : Cell(i, j) = content[j][i]
NoOverflow == \A k \in 1 .. Size : words[k] \in 0 .. 2 ^ W - 1
Fits == \A j \in Cols : content[j] # Unwritten => Len(Pack(content[j], maxs[j])) = NWords(maxs[j])
=============================================================================
