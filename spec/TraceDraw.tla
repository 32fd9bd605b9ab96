----------------------------- MODULE TraceDraw -----------------------------
(***************************************************************************)
(* Features chosen at the nodes of many trees of forests on data where the *)
(* features drawn show in the feature chosen.  Event "chose": node         *)
(* position pos (a path of L and R) was split by feature f.  Event "end":  *)
(* every feature that can be chosen was, wherever the number of nodes      *)
(* makes it (with overwhelming probability) so.  T.ranked: features are    *)
(* numbered from the best to the worst, otherwise all are alike and one is *)
(* drawn.  T.mfp is the parameter max_features.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, seen
D == INSTANCE Draw WITH P <- 1, K <- 1, pool <- <<>>, out <- <<>>

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Chk(clause, ok) == IF ok THEN {} ELSE {"C08." \o clause}

Put(s, pos, f) ==
  [q \in DOMAIN s \cup {pos} |->
     LET old == IF q \in DOMAIN s THEN s[q] ELSE [n |-> 0, fs |-> {}] IN
     IF q = pos THEN [n |-> old.n + 1, fs |-> old.fs \cup {f}] ELSE old]
Must == D!CanWin(T.F, D!NumFeatures(T.mfp, T.F))
EndClauses ==
  Chk("drawn", \A pos \in DOMAIN seen : seen[pos].n >= T.enough => Must \subseteq seen[pos].fs)
  \cup Chk("ranked", T.ranked => \A pos \in DOMAIN seen : seen[pos].fs \subseteq Must)
Step == CASE Ev.t = "chose" -> seen' = Put(seen, Ev.pos, Ev.f) /\ UNCHANGED bad
          [] Ev.t = "end" -> bad' = bad \cup EndClauses /\ UNCHANGED seen
          [] Ev.t = "error" -> bad' = bad \cup Chk("error", FALSE) /\ UNCHANGED seen
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ seen = [p \in {} |-> 0]
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, seen>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
