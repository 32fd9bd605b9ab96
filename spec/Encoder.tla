------------------------------ MODULE Encoder ------------------------------
(***************************************************************************)
(* What the encoder (preprocessing/encoder.py, _binning.py, _checks.py)    *)
(* means, for one column: how it is typed, and the bin of each value after *)
(* fit.  Numbers are those of Float64, categories are strings.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64

SetOf(s) == {s[k] : k \in 1 .. Len(s)}
Max2(a, b) == IF a >= b THEN a ELSE b

(***************************************************************************)
(* Typing (C03).  d: the declaration for the forest or encoder             *)
(*   [k |-> "none"], [k |-> "mask", v |-> booleans], [k |-> "index", v |-> *)
(*   indices from 0], [k |-> "bad"] (elements of any other type).          *)
(***************************************************************************)
ValidDeclaration(d, nf) ==
  CASE d.k = "none" -> TRUE
    [] d.k = "mask" -> Len(d.v) = 0 \/ Len(d.v) = nf
    [] d.k = "index" -> \A k \in 1 .. Len(d.v) : d.v[k] \in 0 .. nf - 1
    [] OTHER -> FALSE
\* "yes", "no" or "open" for column j (from 1); an empty declaration is none
Declared(d, j) ==
  IF d.k = "none" \/ Len(d.v) = 0 THEN "open"
  ELSE IF d.k = "mask" THEN IF d.v[j] THEN "yes" ELSE "no"
  ELSE IF (j - 1) \in SetOf(d.v) THEN "yes" ELSE "no"
\* the largest number of distinct values of a numerical column taken as categorical
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF (k + 1) * (k + 1) > n THEN k ELSE ISqrt(n, k + 1)
RECURSIVE ILog(_, _)        \* floor of the natural logarithm
ILog(n, k) == IF FLt(FLog(FInt(n)), FInt(k + 1)) THEN k ELSE ILog(n, k + 1)
CatLimit(rule, n) ==
  CASE rule.k = "int" -> rule.v
    [] rule.k = "log" -> Max2(2, ILog(n, 0))
    [] rule.k = "sqrt" -> Max2(2, ISqrt(n, 0))
\* col: [dtype |-> "num" / "text" / "bool" / "category" / "other", distinct |-> number of distinct non-missing values]
\* in a DataFrame: "cat", "num" or "error"
TypeOfColumn(col, decl, limit) ==
  CASE col.dtype = "other" -> "error"
    [] col.dtype \in {"text", "bool", "category"} -> "cat"
    [] OTHER -> IF decl = "yes" THEN "cat" ELSE IF decl = "no" THEN "num"
                ELSE IF col.distinct <= limit THEN "cat" ELSE "num"

(***************************************************************************)
(* Numerical columns (C01).  enc = [vals |-> distinct fitted values, mb]   *)
(***************************************************************************)
\* the cut below +infinity is the largest cut there is
AlmostInf == FExp(FMul(FInt(300), FLog(FInt(10))))
Mid(a, b) == LET m == FMul(FRat(1, 2), FAdd(a, b)) IN IF FIsNaN(m) THEN FInt(0) ELSE FMin(m, AlmostInf)
Exact(enc) == Cardinality(enc.vals) <= enc.mb
NextUp(S, a) == FMinSet({b \in S : FLt(a, b)})
Cuts(enc) == {Mid(a, NextUp(enc.vals, a)) : a \in {a \in enc.vals : \E b \in enc.vals : FLt(a, b)}}
\* the number of cuts below the value; a value equal to a cut goes to the lower bin
BinOf(cuts, v) == Cardinality({c \in cuts : FLt(c, v)})
\* number of bins of the column, which is the bin of missing values
NumBins(enc) == IF Exact(enc) THEN Max2(1, Cardinality(enc.vals)) ELSE enc.mb
\* seen: the set of <<value, bin>> observed until now
Monotone(seen, v, b) == \A p \in seen : /\ FLt(p[1], v) => p[2] <= b
                                        /\ FLt(v, p[1]) => b <= p[2]
                                        /\ FEq(v, p[1]) => b = p[2]
NumBinOk(enc, cuts, seen, v, b) ==
  /\ b \in 0 .. NumBins(enc) - 1
  /\ Monotone(seen, v, b)
  /\ Exact(enc) => b = BinOf(cuts, v)
\* equal numbers of samples: with n fitted samples and the cut k of mb bins at rank k n / mb, a value that has the
\* ranks r1 to r2 (from 1; several with ties) has a bin that matches its ranks, up to a slack in ranks
RankOk(n, mb, slack, r1, r2, b) ==
  /\ b * n <= (r2 + slack) * mb
  /\ (r1 - slack) * mb <= (b + 1) * n

(***************************************************************************)
(* Categorical columns (C02).  enc = [cats |-> set of fitted categories,   *)
(* policy |-> "error" / "consider_missing"]; "" is the missing value.      *)
(***************************************************************************)
Missing == ""
Unknown(enc, v) == v # Missing /\ v \notin enc.cats
Rejected(enc, batch) == enc.policy = "error" /\ \E k \in 1 .. Len(batch) : Unknown(enc, batch[k].v)
CatBinOk(enc, seen, v, b) ==
  LET n == Cardinality(enc.cats) IN
  IF v \in enc.cats
  THEN b \in 0 .. n - 1 /\ \A p \in seen : (p[1] = v) <=> (p[2] = b)
  ELSE b = n

(***************************************************************************)
(* Back from bins (C20): a category comes back as itself, a number as the  *)
(* interval lo < v <= hi of the numbers that share its bin; missing values *)
(* and unknown categories come back as missing.                            *)
(***************************************************************************)
CatBackOk(enc, v, back) == back = IF v \in enc.cats THEN v ELSE Missing
\* seen: the set of <<bin, lo, hi>> observed until now
NumBackOk(enc, cuts, seen, v, b, lo, hi) ==
  /\ FLt(lo, v) /\ FLe(v, hi)
  /\ \A p \in seen : IF p[1] = b THEN FEq(p[2], lo) /\ FEq(p[3], hi)
                     ELSE IF p[1] < b THEN FLe(p[3], lo) ELSE FLe(hi, p[2])
  /\ Exact(enc) => /\ ~ \E c \in cuts : FLt(lo, c) /\ FLt(c, hi)
                   /\ b > 0 => (\E c \in cuts : FEq(c, lo))
                   /\ b < NumBins(enc) - 1 => (\E c \in cuts : FEq(c, hi))
=============================================================================
