----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Calls of the real library.  Event "call": what the caller saw of each   *)
(* argument before and after (a digest of contents, type, layout, labels   *)
(* and, for a view, of the memory around it).  Event "pair": two ways of   *)
(* saying the same weights must give the same predictions.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad
C == INSTANCE Calls WITH Args <- {}, Fits <- {}, Written <- {}, Copied <- {}, Calls <- 0,
                         caller <- <<>>, mem <- <<>>, shared <- <<>>, pc <- "idle", left <- 0
ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Chk(clause, ok) == IF ok THEN {} ELSE {p \o "." \o clause : p \in CLAUSES}
Same(u, v, s) == Len(u) = Len(v) /\ \A k \in DOMAIN u : FClose(u[k], v[k], FRat(1, 100000), FMul(s, FRat(1, 100000)))
Step == CASE Ev.t = "call" -> bad' = bad \cup Chk("inputs:" \o Ev.op, C!CallKeeps(Ev.before, Ev.after))
          [] Ev.t = "pair" -> bad' = bad \cup Chk(Ev.what, Same(Ev.left, Ev.right, Ev.scale))
          [] Ev.t = "error" -> bad' = bad \cup Chk("error", FALSE)
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {}
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
