----------------------------- MODULE Bootstrap -----------------------------
(***************************************************************************)
(* The bootstrap of the trees of a forest (_generate_train_valid_samples,  *)
(* _parallel_build_trees, _generate_random_states).  Trees are built by    *)
(* threads in any order; tree <<c, j>> is estimator j of class c (one      *)
(* class without one-versus-rest).  The draws of an estimator depend on    *)
(* its seed only, and draws that leave no row out are drawn again.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

CONSTANTS N,          \* rows
          Classes, Estimators

Rows == 1 .. N
Trees == Classes \X Estimators

(* what holds of one bootstrap: mult is the multiplicity of each row *)
InBag(m) == {r \in DOMAIN m : m[r] > 0}
SumOver(m, S) == FoldFunctionOnSet(+, 0, m, S)
ValidBootstrap(n, train, valid, m) ==
  /\ train \cap valid = {} /\ train \cup valid = 1 .. n
  /\ train # {} /\ valid # {}
  /\ train = InBag(m)
  /\ SumOver(m, train) = n

VARIABLES draws,    \* per estimator (seed): the multiplicities its draws give, or <<>> while not drawn
          pc,       \* per tree: "start", "copied", "drawn", "done"
          caller,   \* the weights the trees were given, shared
          w,        \* per tree: its own weights
          train     \* per tree: its in-bag rows
vars == <<draws, pc, caller, w, train>>

Base(r) == 10 + r
Mults == {m \in [Rows -> 0 .. N] : SumOver(m, Rows) = N}
Init ==
  /\ draws = [j \in Estimators |-> <<>>]
  /\ pc = [t \in Trees |-> "start"]
  /\ caller = [r \in Rows |-> Base(r)]
  /\ w = [t \in Trees |-> <<>>]
  /\ train = [t \in Trees |-> {}]
Copy(t) == /\ pc[t] = "start" /\ pc' = [pc EXCEPT ![t] = "copied"]
           /\ w' = [w EXCEPT ![t] = caller] /\ UNCHANGED <<draws, caller, train>>
\* draws that leave no row out are rejected
Draw(t) == /\ pc[t] = "copied"
           /\ IF draws[t[2]] # <<>> THEN UNCHANGED draws
              ELSE \E m \in Mults : InBag(m) # Rows /\ draws' = [draws EXCEPT ![t[2]] = m]
           /\ pc' = [pc EXCEPT ![t] = "drawn"]
           /\ train' = [train EXCEPT ![t] = InBag(draws'[t[2]])]
           /\ UNCHANGED <<caller, w>>
Weigh(t) == /\ pc[t] = "drawn" /\ pc' = [pc EXCEPT ![t] = "done"]
            /\ w' = [w EXCEPT ![t] = [r \in Rows |-> IF r \in train[t] THEN w[t][r] * draws[t[2]][r] ELSE w[t][r]]]
            /\ UNCHANGED <<draws, caller, train>>
Next == \/ \E t \in Trees : Copy(t) \/ Draw(t) \/ Weigh(t)
        \/ (\A t \in Trees : pc[t] = "done") /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Bags == \A t \in Trees : pc[t] \in {"drawn", "done"} => ValidBootstrap(N, train[t], Rows \ train[t], draws[t[2]])
OwnWeights == \A t \in Trees : pc[t] = "done" =>
  \A r \in Rows : w[t][r] = Base(r) * (IF draws[t[2]][r] = 0 THEN 1 ELSE draws[t[2]][r])
CallerKept == \A r \in Rows : caller[r] = Base(r)
Shared == \A s, t \in Trees : (s[2] = t[2] /\ pc[s] = "done" /\ pc[t] = "done") => train[s] = train[t] /\ w[s] = w[t]
=============================================================================
