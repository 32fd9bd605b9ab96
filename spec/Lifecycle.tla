----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of forest objects: construction, assignment of parameters,     *)
(* fit, prediction, pickling, cloning and lightening (forest.py, tree.py). *)
(* A parameter has values 0, 1, .. ; 0 is the default.                     *)
(*                                                                         *)
(* An object holds its parameters, what was in force when it was fitted    *)
(* ("at", "data"), and the state of its trees: their own step and          *)
(* dirichlet, the dirichlet their node predictions were computed with and  *)
(* the <<step, dirichlet>> their aggregation weights were computed with.   *)
(* The invariants say what a user sees of it: predictions are those of a   *)
(* forest fitted with the current step and dirichlet.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Objs,          \* names of objects: 1, 2, ..
          Params,        \* the parameters that are assigned
          Vals,          \* [Params -> number of values]
          Datas,         \* data sets
          Ops,           \* the kinds of operations that are allowed
          Start,         \* objects that are fitted initially (on data set 1)
          Len0           \* length of histories
VARIABLES obj, hist
vars == <<obj, hist>>

LockedParams == {"nest", "rs", "mc", "strat"}
\* parameters whose values are only checked by fit: "badat" assigns a bad one, fits, and takes it back
AtFit == {"unk", "catmin", "sub", "cat"}
NoObj == [alive |-> FALSE]
\* missing parameters have their default value
Val(prm, p) == IF p \in DOMAIN prm THEN prm[p] ELSE 0
Defaults == [p \in Params |-> 0]
NoTrees == [step |-> 0, dir |-> 0, preds |-> 0, weights |-> <<0, 0>>]
Fresh(prm) == [alive |-> TRUE, prm |-> prm, fitted |-> FALSE, at |-> prm, data |-> 0, light |-> FALSE, trees |-> NoTrees]
Grown(o, d) ==
  LET s == Val(o.prm, "step")  a == Val(o.prm, "dir") IN
  [o EXCEPT !.fitted = TRUE, !.at = o.prm, !.data = d, !.light = FALSE,
            !.trees = [step |-> s, dir |-> a, preds |-> a, weights |-> <<s, a>>]]

(***************************************************************************)
(* What an assignment does.  "rejected" leaves everything as it was.       *)
(***************************************************************************)
Accepts(o, p, v) ==
  /\ ~ (o.fitted /\ p \in LockedParams)
  /\ p = "dir" => (o.fitted /\ o.light => v = o.prm.dir)
AfterSet(o, p, v) ==
  LET q == [o EXCEPT !.prm[p] = v]
      t == o.trees IN
  IF ~ o.fitted THEN q
  ELSE CASE p = "step" ->
              IF t.step = v THEN q ELSE [q EXCEPT !.trees.step = v, !.trees.weights = <<v, t.preds>>]
         [] p = "dir" ->
              IF t.dir = v THEN q
              ELSE [q EXCEPT !.trees.dir = v, !.trees.preds = v, !.trees.weights = <<t.step, v>>]
         [] OTHER -> q

(***************************************************************************)
(* Operations.  An operation is a record; its result is "ok", "rejected"   *)
(* (an error, nothing changed) or "unfitted" (NotFittedError).             *)
(***************************************************************************)
Result(o, op) ==
  CASE op.t = "set" -> IF Accepts(o, op.p, op.v) THEN "ok" ELSE "rejected"
    [] op.t \in {"bad", "badfit", "badat"} -> "rejected"
    [] op.t = "use" -> IF o.fitted THEN "ok" ELSE "unfitted"
    [] OTHER -> "ok"
\* the new objects
Apply(os, op) ==
  LET o == os[op.o] IN
  CASE op.t = "set" -> IF Accepts(o, op.p, op.v) THEN [os EXCEPT ![op.o] = AfterSet(o, op.p, op.v)] ELSE os
    [] op.t \in {"bad", "badfit", "badat", "use"} -> os
    [] op.t = "fit" -> [os EXCEPT ![op.o] = Grown(o, op.d)]
    [] op.t = "fitcat" -> [os EXCEPT ![op.o] = Grown([o EXCEPT !.prm["cat"] = op.v], op.d)]
    [] op.t = "light" -> [os EXCEPT ![op.o].light = o.fitted]
    [] op.t \in {"pickle", "copy"} -> [os EXCEPT ![op.q] = o]
    [] op.t = "clone" -> [os EXCEPT ![op.q] = Fresh(o.prm)]
    [] op.t = "new" -> [os EXCEPT ![op.o] = Fresh(Defaults)]

Enabled(os, op) == os[op.o].alive
AllOps ==
  {[t |-> "set", o |-> o, p |-> p, v |-> v] : o \in Objs, p \in Params, v \in 0 .. 2}
  \cup {[t |-> "bad", o |-> o, p |-> p] : o \in Objs, p \in Params \ AtFit}
  \cup {[t |-> "badat", o |-> o, p |-> p] : o \in Objs, p \in Params \cap AtFit}
  \cup {[t |-> t, o |-> o] : t \in {"use", "light", "badfit"}, o \in Objs}
  \cup {[t |-> "fit", o |-> o, d |-> d] : o \in Objs, d \in Datas}
  \cup {[t |-> "fitcat", o |-> o, d |-> d, v |-> v] : o \in Objs, d \in Datas, v \in {1}}
  \cup {[t |-> t, o |-> o, q |-> q] : t \in {"pickle", "copy", "clone"}, o \in Objs, q \in Objs}
Sane(op) == /\ op.t \in Ops
            /\ op.t = "set" => op.v < Vals[op.p]
            /\ op.t \in {"pickle", "copy", "clone"} => op.o # op.q
            /\ op.t = "fitcat" => "cat" \in Params
Init == /\ obj = [o \in Objs |-> IF o \in Start THEN Grown(Fresh(Defaults), 1) ELSE IF o = 1 THEN Fresh(Defaults) ELSE NoObj]
        /\ hist = <<>>
Next == \/ \E op \in AllOps :
             /\ Len(hist) < Len0
             /\ Sane(op) /\ Enabled(obj, op)
             /\ obj' = Apply(obj, op)
             /\ hist' = Append(hist, op)
        \/ Len(hist) = Len0 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
NoHist == <<obj, Len(hist)>>

(***************************************************************************)
(* What the user relies on.                                                *)
(***************************************************************************)
\* the trees are those of a forest fitted with the current step and dirichlet
Coherent == \A o \in Objs : obj[o].alive /\ obj[o].fitted =>
  LET s == Val(obj[o].prm, "step")  a == Val(obj[o].prm, "dir")  t == obj[o].trees IN
  t = [step |-> s, dir |-> a, preds |-> a, weights |-> <<s, a>>]
\* what a forest fitted anew must have been given to answer as object o does
Key(o) == [at |-> [p \in DOMAIN o.at |-> IF p \in {"step", "dir"} THEN o.prm[p] ELSE o.at[p]], data |-> o.data]
\* assignments after fit change nothing but step and dirichlet
Stable == [][\A o \in Objs : (obj[o].alive /\ obj[o].fitted /\ obj'[o].fitted /\ obj[o].data = obj'[o].data
                              /\ obj[o].at # obj'[o].at)
              => hist' # hist /\ hist'[Len(hist')].t \in {"fit", "fitcat", "pickle", "copy"}]_vars
\* operations on one object leave the others alone
Apart == [][hist' # hist =>
             LET op == hist'[Len(hist')] IN
             \A o \in Objs : o # op.o /\ ("q" \in DOMAIN op => o # op.q) => obj'[o] = obj[o]]_vars
Emit == Len(hist) = Len0 => PrintT("HIST " \o ToString(hist))
=============================================================================
