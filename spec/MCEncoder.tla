----------------------------- MODULE MCEncoder -----------------------------
(***************************************************************************)
(* The encoder as an algorithm (thresholds, binary search, pandas codes)   *)
(* on all small columns, followed by batches in any order: what it does is *)
(* what Encoder says.                                                      *)
(***************************************************************************)
EXTENDS Encoder

CONSTANTS V,        \* numbers are the even integers 0..2V; probes also odd ones and the outside
          N,        \* number of fitted samples (0: missing values only)
          MB,       \* max_bins
          Cats,     \* possible categories
          Batches   \* number of batches
VARIABLES mode, enc, th, seen, left
vars == <<mode, enc, th, seen, left>>

(* thresholds of the implementation *)
SortedSeqs(n) == {s \in [1 .. n -> 0 .. V] : \A k \in 1 .. n - 1 : s[k] <= s[k + 1]}
Num(k) == FInt(2 * k)
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o SortSet(S \ {m})
Middles(s) ==   \* of the distinct values, or of the percentiles k / MB ("midpoint"), in the unit 1
  LET u == SortSet(SetOf(s))  n == Len(s) IN
  IF Len(u) <= MB THEN [k \in 1 .. (IF u = <<>> THEN 0 ELSE Len(u) - 1) |-> u[k] + u[k + 1]]
  ELSE [k \in 1 .. MB - 1 |->
          LET p == k * (n - 1)       \* position p / MB
              lo == s[p \div MB + 1]
              hi == s[(p + MB - 1) \div MB + 1] IN lo + hi]
RECURSIVE Search(_, _, _, _)
Search(t, v, l, r) ==          \* _bin_continuous_column
  IF l >= r THEN l
  ELSE LET m == l + (r - l - 1) \div 2 IN
       IF v <= t[m + 1] THEN Search(t, v, l, m) ELSE Search(t, v, m + 1, r)
BinNow(v) == Search(th, v, 0, Len(th))

Init ==
  /\ left = Batches
  /\ seen = {}
  /\ \/ mode = "num" /\ \E n \in N : \E s \in SortedSeqs(n) :
          /\ enc = [vals |-> {Num(x) : x \in SetOf(s)}, mb |-> MB, n |-> n, s |-> s]
          /\ th = Middles(s)
     \/ mode = "cat" /\ \E C \in SUBSET Cats : \E pol \in {"error", "consider_missing"} :
          /\ enc = [cats |-> C, policy |-> pol]
          /\ th = CHOOSE f \in [C -> 0 .. Cardinality(C) - 1] : \A a, b \in C : a # b => f[a] # f[b]
\* one value of a batch
NumStep == mode = "num" /\ \E v \in -1 .. 2 * V + 1 :
  seen' = seen \cup {<<FInt(v), BinNow(v)>>}
CatStep == mode = "cat" /\ \E c \in Cats \cup {Missing} :
  LET code == IF c \in enc.cats THEN th[c] ELSE -1
      bin == IF code = -1 THEN Cardinality(enc.cats) ELSE code IN
  IF Rejected(enc, <<[v |-> c]>>) THEN UNCHANGED seen
  ELSE seen' = seen \cup {<<c, bin>>}
Next == left > 0 /\ left' = left - 1 /\ (NumStep \/ CatStep) /\ UNCHANGED <<mode, enc, th>>
Spec == Init /\ [][Next]_vars

NumRight == mode = "num" => \A p \in seen : NumBinOk(enc, Cuts(enc), seen, p[1], p[2])
\* the interval that inverse_transform gives for a bin
Lower(b) == IF b = 0 THEN FInt(-1000) ELSE FInt(th[b])
Upper(b) == IF b = Len(th) THEN FInt(1000) ELSE FInt(th[b + 1])
BackRight ==
  /\ mode = "num" => LET back == {<<p[2], Lower(p[2]), Upper(p[2])>> : p \in seen} IN
       \A p \in seen : NumBackOk(enc, Cuts(enc), back, p[1], p[2], Lower(p[2]), Upper(p[2]))
  /\ mode = "cat" => \A p \in seen : CatBackOk(enc, p[1],
       IF p[2] = Cardinality(enc.cats) THEN Missing ELSE CHOOSE c \in enc.cats : th[c] = p[2])
CatRight == mode = "cat" => \A p \in seen : CatBinOk(enc, {q \in seen : q[1] \in enc.cats}, p[1], p[2])
NeverUnknown == (mode = "cat" /\ enc.policy = "error") => \A p \in seen : ~ Unknown(enc, p[1])
\* every fitted value is separated when there are few of them
Separates == (mode = "num" /\ Exact(enc)) => \A p, q \in seen :
   (p[1] \in enc.vals /\ q[1] \in enc.vals /\ p[2] = q[2]) => p[1] = q[1]
\* equal numbers of samples, up to ties
Balanced == (mode = "num" /\ ~ Exact(enc)) =>
  \A r \in 1 .. enc.n :
    LET same == {q \in 1 .. enc.n : enc.s[q] = enc.s[r]} IN
    RankOk(enc.n, MB, 1, CHOOSE q \in same : \A z \in same : q <= z, CHOOSE q \in same : \A z \in same : z <= q,
           BinNow(2 * enc.s[r]))
=============================================================================
