------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* The objects that a caller passes to fit and to the prediction methods,  *)
(* and what the library works on: an argument whose layout and type fit is *)
(* taken as it is (the same memory), any other is converted (new memory);  *)
(* what is going to be written is copied first.  Calls follow one another, *)
(* on the same or on other arguments.                                      *)
(*                                                                         *)
(* Kept: no call changes what the caller sees of its objects, and every    *)
(* call works on what the caller passed.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Args,       \* the caller's objects
          Fits,       \* those whose layout and type the library takes as they are
          Written,    \* those the library writes to while it works (weights are multiplied, columns are sorted)
          Copied,     \* those it copies before
          Calls       \* number of calls
VARIABLES caller,     \* content of the caller's objects
          mem,        \* content of the library's own memory, per argument
          shared,     \* per argument: the library works on the caller's memory
          pc, left
vars == <<caller, mem, shared, pc, left>>

Init == /\ caller = [a \in Args |-> 0] /\ mem = [a \in Args |-> 0]
        /\ shared = [a \in Args |-> FALSE] /\ pc = "idle" /\ left = Calls
Take ==
  /\ pc = "idle" /\ left > 0
  /\ shared' = [a \in Args |-> a \in Fits /\ a \notin Copied]
  /\ mem' = caller
  /\ pc' = "working" /\ UNCHANGED <<caller, left>>
Work ==
  /\ pc = "working"
  /\ \E W \in SUBSET Written :
       /\ caller' = [a \in Args |-> IF a \in W /\ shared[a] THEN caller[a] + 1 ELSE caller[a]]
       /\ mem' = [a \in Args |-> IF a \in W THEN mem[a] + 1 ELSE mem[a]]
  /\ pc' = "idle" /\ left' = left - 1 /\ UNCHANGED shared
Next == Take \/ Work \/ (pc = "idle" /\ left = 0 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Kept == caller = [a \in Args |-> 0]

(***************************************************************************)
(* What a recorded call must satisfy: before and after are what the caller *)
(* sees of its objects (contents, types, layouts, labels).                 *)
(***************************************************************************)
CallKeeps(before, after) == before = after
=============================================================================
