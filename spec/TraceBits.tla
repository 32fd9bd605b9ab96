----------------------------- MODULE TraceBits -----------------------------
(***************************************************************************)
(* Validation of histories of the real packed storage: after every write,  *)
(* every way of reading must return the content of BitPack (the matrix     *)
(* that was written).  Values are strings: they exceed TLC's integers.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, content

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Fail(ok, what) == IF ok THEN {} ELSE {"C04." \o what}

\* the columns that were written
Known == {j \in 1 .. Len(content) : content[j] # <<>>}
Step ==
  CASE Ev.t = "new" ->      \* a new store with Ev.c columns
         content' = [j \in 1 .. Ev.c |-> <<>>] /\ bad' = bad
    [] Ev.t = "fill" ->
         content' = [content EXCEPT ![Ev.j] = Ev.col] /\ bad' = bad
    [] Ev.t = "pack" ->     \* a whole matrix, given by columns
         content' = Ev.cols /\ bad' = bad
    [] Ev.t = "column" ->   \* the cells of a column, read one by one
         bad' = bad \cup Fail(Ev.col = content[Ev.j], "cell") /\ UNCHANGED content
    [] Ev.t = "matrix" ->   \* the whole matrix, by columns
         bad' = bad \cup Fail(Len(Ev.cols) = Len(content) /\ \A j \in Known : Ev.cols[j] = content[j], "matrix")
         /\ UNCHANGED content
    [] Ev.t = "error" -> bad' = bad \cup {"C04.error"} /\ UNCHANGED content

Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ content = <<>>
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, content>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
