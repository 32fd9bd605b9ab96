---------------------------- MODULE TraceStreams ----------------------------
(***************************************************************************)
(* Validation of fits of real forests.  Each event "fit" gives the         *)
(* arguments of the fit ("base": all but random_state; "seed"), and        *)
(* digests of the bootstraps and of everything the forest shows.  As in    *)
(* Streams, equal arguments give equal forests whatever else happened, and *)
(* different seeds different bootstraps.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, seen

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Chk(clause, ok) == IF ok THEN {} ELSE {"C14." \o clause}

FitClauses(e) ==
  Chk("same", \A f \in seen : (f.base = e.base /\ f.seed = e.seed) => f.digest = e.digest)
  \cup Chk("samebags", \A f \in seen : (f.base = e.base /\ f.seed = e.seed) => f.boots = e.boots)
  \cup Chk("different", \A f \in seen : (f.base = e.base /\ f.seed # e.seed /\ e.many /\ e.boots # <<>>) => f.boots # e.boots)

Step == CASE Ev.t = "fit" ->
               /\ bad' = bad \cup FitClauses(Ev)
               /\ seen' = seen \cup {[base |-> Ev.base, seed |-> Ev.seed, digest |-> Ev.digest, boots |-> Ev.boots]}
          [] Ev.t = "error" -> bad' = bad \cup Chk("error", FALSE) /\ UNCHANGED seen
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ seen = {}
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, seen>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
