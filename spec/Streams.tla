------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* Random numbers of a fit.  A forest derives one seed per tree from its   *)
(* random_state.  A tree draws its bootstrap from a generator of its own,  *)
(* and its features and orders from the generator of the worker thread it  *)
(* grows on, which it seeds first.  Other code uses the global generator   *)
(* and the generators of the threads between two trees.                    *)
(*                                                                         *)
(* A generator is the sequence of what happened to it since it was seeded; *)
(* what a tree draws is the state it finds.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Forests,       \* forests being fitted concurrently: 1, 2, ..
          SeedOf,        \* [Forests -> random_state]
          NTrees, NThreads, NDraws,
          Reseed         \* does a tree seed the generator of its thread? (FALSE: the model must fail)
VARIABLES gen,           \* [threads -> state of the generator]
          on,            \* [threads -> <<forest, tree>> or <<>>]
          todo,          \* trees that have not started
          drawn,         \* [forest, tree -> sequence of states drawn from]
          noise          \* number of disturbances so far
vars == <<gen, on, todo, drawn, noise>>
Threads == 1 .. NThreads
TreesOf == Forests \X (1 .. NTrees)
Seed(f, t) == <<"seed", SeedOf[f], t>>
Init ==
  /\ gen = [h \in Threads |-> <<"dirty">>]
  /\ on = [h \in Threads |-> <<>>]
  /\ todo = TreesOf
  /\ drawn = [x \in TreesOf |-> <<>>]
  /\ noise = 0
Begin(h, x) ==
  /\ on[h] = <<>> /\ x \in todo
  /\ on' = [on EXCEPT ![h] = x]
  /\ todo' = todo \ {x}
  /\ gen' = IF Reseed THEN [gen EXCEPT ![h] = <<Seed(x[1], x[2])>>] ELSE gen
  /\ UNCHANGED <<drawn, noise>>
Draw(h) ==
  /\ on[h] # <<>> /\ Len(drawn[on[h]]) < NDraws
  /\ drawn' = [drawn EXCEPT ![on[h]] = Append(@, gen[h])]
  /\ gen' = [gen EXCEPT ![h] = Append(@, "draw")]
  /\ UNCHANGED <<on, todo, noise>>
End(h) ==
  /\ on[h] # <<>> /\ Len(drawn[on[h]]) = NDraws
  /\ on' = [on EXCEPT ![h] = <<>>]
  /\ UNCHANGED <<gen, todo, drawn, noise>>
\* code of the user, or another forest, uses the generator of an idle thread
Disturb(h) ==
  /\ on[h] = <<>> /\ noise < 2
  /\ gen' = [gen EXCEPT ![h] = Append(@, "other")]
  /\ noise' = noise + 1
  /\ UNCHANGED <<on, todo, drawn>>
Done == todo = {} /\ \A h \in Threads : on[h] = <<>>
Next == (\E h \in Threads : (\E x \in todo : Begin(h, x)) \/ Draw(h) \/ End(h) \/ Disturb(h)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* the k-th draw of a tree depends on the seed of its forest and on its number only
Expected(f, t, k) == <<Seed(f, t)>> \o [j \in 1 .. k - 1 |-> "draw"]
Determined == \A x \in TreesOf : \A k \in 1 .. Len(drawn[x]) : drawn[x][k] = Expected(x[1], x[2], k)
\* so forests of the same random_state are the same, tree by tree
SameForests == Done => \A f, g \in Forests : SeedOf[f] = SeedOf[g] => \A t \in 1 .. NTrees : drawn[<<f, t>>] = drawn[<<g, t>>]
=============================================================================
