---------------------------- MODULE TraceSignals ----------------------------
(***************************************************************************)
(* Validation of recorded calls of get_signal and make_regression.  The    *)
(* specification keeps what seeded calls have drawn.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64, Json, IOUtils

CONSTANT CLAUSES
VARIABLES tid, i, bad, drawn, answers

S == INSTANCE Signals WITH Seeds <- {}, Sizes <- {}, Noises <- {}, Names <- {}, Calls <- 0, Grid <- 0, gen <- 0, made <- 0

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(2)
T == Traces[tid]
Ev == T.ev[i]
Chk(clause, ok) == IF ok THEN {} ELSE {"C21." \o clause}
Tol(single) == IF single THEN FRat(1, 2000) ELSE FRat(1, 100000000)
Same(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : FClose(a[k], b[k], FInt(0), tol)
Exactly(a, b) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : FEq(a[k], b[k])

\* "signal": [name, x, y, after (the inputs after the call), single]
SignalOk(name, x, y, tol, eps) ==
  LET raw == S!RawSeq(name, x) IN S!Flat(raw, eps) \/ Same(y, Force(S!Scaled(raw)), tol)
StepSignal ==
  /\ bad' = bad \cup Chk("signal", SignalOk(Ev.name, Ev.x, Ev.y, Tol(Ev.single), IF Ev.single THEN FRat(1, 10) ELSE FRat(1, 1000)))
                \cup Chk("inputs", Exactly(Ev.x, Ev.after))
  /\ UNCHANGED <<drawn, answers>>

\* "make": [n, name, noise, seed ("none" for none), shape, x, y]
Gauss(e) ==          \* the gaussians that explain the labels; noise 0: the signal alone
  LET clean == Force(S!Scaled(S!RawSeq(e.name, e.x))) IN
  Force([k \in 1 .. e.n |-> FDiv(FSub(e.y[k], clean[k]), e.noise)])
Moments(z) ==        \* mean and variance of the gaussians
  LET n == FInt(Len(z))  m == FDiv(FSum(z), n) IN <<m, FSub(FDiv(FSum(FMulSeq(z, z)), n), FMul(m, m))>>
MakeClauses(e, flat, noisy, z) ==
  LET known == {d \in drawn : d.seed = e.seed /\ d.n = e.n} IN   Chk("shape", e.shape = <<e.n, 1>> /\ Len(e.x) = e.n /\ Len(e.y) = e.n)
       \cup Chk("sorted", \A k \in 1 .. e.n : /\ FLe(FInt(0), e.x[k]) /\ FLe(e.x[k], FInt(1))
                                              /\ k = 1 \/ FLe(e.x[k - 1], e.x[k]))
       \cup Chk("labels", flat \/ noisy \/ SignalOk(e.name, e.x, e.y, Tol(FALSE), FRat(1, 1000)))
       \cup Chk("again", \A a \in answers : (a.seed = e.seed /\ a.n = e.n /\ a.name = e.name /\ FEq(a.noise, e.noise)) =>
                            Exactly(a.x, e.x) /\ (flat \/ Exactly(a.y, e.y)))
       \cup Chk("draws", \A d \in known : /\ Exactly(d.x, e.x)
                                          /\ (d.z # <<>> /\ z # <<>>) => Same(d.z, z, FRat(1, 100000)))
       \cup Chk("seeds", \A d \in drawn : (d.n = e.n /\ d.n > 3 /\ d.seed # e.seed) => ~ Exactly(d.x, e.x))
       \cup Chk("gaussian", Len(z) < 1000 \/ LET m == TLCEval(Moments(z)) IN
                  FLt(FAbs(m[1]), FRat(2, 10)) /\ FLt(FRat(7, 10), m[2]) /\ FLt(m[2], FRat(13, 10)))
       \cup Chk("uniform", e.n < 1000 \/ LET m == TLCEval(Moments(e.x)) IN
                  FLt(FAbs(FSub(m[1], FRat(1, 2))), FRat(6, 100)) /\ FLt(FAbs(FSub(m[2], FRat(1, 12))), FRat(2, 100)))
StepMake ==
  LET e == Ev
      noisy == ~ FEq(e.noise, FInt(0))
      flat == S!Flat(S!RawSeq(e.name, e.x), FRat(1, 1000))
      z == IF flat \/ ~ noisy THEN <<>> ELSE TLCEval(Gauss(e)) IN
  /\ bad' = bad \cup TLCEval(MakeClauses(e, flat, noisy, TLCEval(z)))
  /\ drawn' = IF e.seed = "none" THEN drawn ELSE drawn \cup {[seed |-> e.seed, n |-> e.n, x |-> e.x, z |-> TLCEval(z)]}
  /\ answers' = IF e.seed = "none" THEN answers
                ELSE answers \cup {[seed |-> e.seed, n |-> e.n, name |-> e.name, noise |-> e.noise, x |-> e.x, y |-> e.y]}
StepError == bad' = bad \cup {"C21.error"} /\ UNCHANGED <<drawn, answers>>

Step == CASE Ev.t = "signal" -> StepSignal
          [] Ev.t = "make" -> StepMake
          [] Ev.t = "error" -> StepError
Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ bad = {} /\ drawn = {} /\ answers = {}
Next ==
  /\ i <= Len(T.ev)
  /\ i' = i + 1
  /\ Step
  /\ UNCHANGED tid
  /\ bad' = bad \/ PrintT(<<"BAD", T.id, i, bad'>>)
Spec == Init /\ [][Next]_<<tid, i, bad, drawn, answers>>
View == <<tid, i, bad>>
Accepted == bad = {}
RECURSIVE SumLen(_)
SumLen(t) == IF t = 0 THEN 0 ELSE Len(Traces[t].ev) + 1 + SumLen(t - 1)
Consumed == TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
