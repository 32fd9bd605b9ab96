------------------------------ MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers.  A number is the pair <<hi, lo>> of  *)
(* the two signed 32-bit halves of its encoding, which is also how the     *)
(* drivers write numbers into traces (TLC has 32-bit integers only).  The  *)
(* operators are evaluated by the TLC module override java/Float64.java;   *)
(* the definitions below only fix names and arities.                       *)
(***************************************************************************)
FInt(i) == CHOOSE x : TRUE                 \* the integer i
FRat(i, j) == CHOOSE x : TRUE              \* i / j
FAdd(a, b) == CHOOSE x : TRUE
FSub(a, b) == CHOOSE x : TRUE
FMul(a, b) == CHOOSE x : TRUE
FDiv(a, b) == CHOOSE x : TRUE
FNeg(a) == CHOOSE x : TRUE
FAbs(a) == CHOOSE x : TRUE
FExp(a) == CHOOSE x : TRUE
FLog(a) == CHOOSE x : TRUE
FMax(a, b) == CHOOSE x : TRUE
FMin(a, b) == CHOOSE x : TRUE
FLt(a, b) == CHOOSE x : TRUE
FLe(a, b) == CHOOSE x : TRUE
FEq(a, b) == CHOOSE x : TRUE
FIsFinite(a) == CHOOSE x : TRUE
FIsNaN(a) == CHOOSE x : TRUE
FLogMeanExp(a, b) == CHOOSE x : TRUE       \* log((e^a + e^b) / 2)
FClose(a, b, rtol, atol) == CHOOSE x : TRUE \* |a-b| <= atol + rtol max(|a|,|b|), false on NaN
FSum(s) == CHOOSE x : TRUE                 \* sum of a sequence of numbers
FSumIdx(s, S) == CHOOSE x : TRUE           \* sum of s[i], i in the set S
FMulSeq(s, t) == CHOOSE x : TRUE           \* the sequence s[i] * t[i]
FMaxSet(S) == CHOOSE x : TRUE              \* largest number of a set, -infinity if empty
FMinSet(S) == CHOOSE x : TRUE              \* smallest number of a set, +infinity if empty
FSqrt(a) == CHOOSE x : TRUE
FSin(a) == CHOOSE x : TRUE
FFloor(a) == CHOOSE x : TRUE
Force(x) == x                              \* evaluates lazy functions and sets inside x
FStr(a) == CHOOSE x : TRUE                 \* printable form
=============================================================================
