------------------------------ MODULE Signals ------------------------------
(***************************************************************************)
(* Simulated data (datasets/signals.py): four signals on [0, 1], scaled to *)
(* [0, 1] over the inputs, and data sets of sorted uniform inputs and      *)
(* labels signal + noise * gaussian, drawn from a generator that a call    *)
(* with a seed restarts, while anyone may draw from it between the calls.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Float64

CONSTANTS Seeds, Sizes, Noises, Names, Calls, Grid

(***************************************************************************)
(* The signals.                                                            *)
(***************************************************************************)
Rats(s, d) == [k \in 1 .. Len(s) |-> FRat(s[k], d)]
Pos == Rats(<<10, 13, 15, 23, 25, 40, 44, 65, 76, 78, 81>>, 100)
BumpHeight == Rats(<<40, 50, 30, 40, 50, 42, 21, 43, 31, 51, 42>>, 10)
BumpWidth == Rats(<<5, 5, 6, 10, 10, 30, 10, 10, 5, 8, 5>>, 1000)
BlockHeight == Rats(<<40, -50, 30, -40, 50, -42, 21, 43, -31, 21, -42>>, 10)
Pi == FAdd(FRat(1570796326, 500000000), FMul(FRat(1589793238, 1000000000), FRat(1, 1000000000)))
Sign(a) == IF FLt(FInt(0), a) THEN FInt(1) ELSE IF FLt(a, FInt(0)) THEN FInt(-1) ELSE FInt(0)
Sq(a) == FMul(a, a)

Heavisine(x) == FSub(FSub(FMul(FInt(4), FSin(FMul(FMul(FInt(4), Pi), x))), Sign(FSub(x, FRat(3, 10)))), Sign(FSub(FRat(72, 100), x)))
Bumps(x) == FSum([j \in 1 .. 11 |-> FDiv(BumpHeight[j], Sq(Sq(FAdd(FInt(1), FDiv(FAbs(FSub(x, Pos[j])), BumpWidth[j])))))])
Blocks(x) == FAdd(FInt(2), FSum([j \in 1 .. 11 |-> FMul(FAdd(FInt(1), Sign(FSub(x, Pos[j]))), FMul(FRat(1, 2), BlockHeight[j]))]))
Doppler(x) == FAdd(FRat(1, 2), FMul(FSqrt(FMul(x, FSub(FInt(1), x))), FSin(FDiv(FMul(FMul(FInt(2), Pi), FRat(105, 100)), FAdd(x, FRat(5, 100))))))
Raw(name, x) == CASE name = "heavisine" -> Heavisine(x)
                  [] name = "bumps" -> Bumps(x)
                  [] name = "blocks" -> Blocks(x)
                  [] name = "doppler" -> Doppler(x)
RawSeq(name, xs) == Force([k \in 1 .. Len(xs) |-> Raw(name, xs[k])])
Range(ys) == {ys[k] : k \in 1 .. Len(ys)}
Low(ys) == FMinSet(Range(ys))
High(ys) == FMaxSet(Range(ys))
Flat(ys, eps) == FLt(FSub(High(ys), Low(ys)), eps)     \* no scale: nothing is claimed
Scaled(ys) == LET lo == Low(ys)  hi == High(ys) IN [k \in 1 .. Len(ys) |-> FDiv(FSub(ys[k], lo), FSub(hi, lo))]

(***************************************************************************)
(* Data sets: a call uses the next draws of the generator, first the       *)
(* inputs, then the gaussians.                                             *)
(***************************************************************************)
VARIABLES gen,      \* <<seed, number of draws since>>
          made      \* the calls and what each used
vars == <<gen, made>>
NoSeed == -1
Draws(g, n) == {<<g[1], k>> : k \in g[2] + 1 .. g[2] + n}
Init == gen = <<0, 0>> /\ made = <<>>
Make(seed, n, name, noise) ==
  LET g == IF seed = NoSeed THEN gen ELSE <<seed, 0>> IN
  /\ Len(made) < Calls
  /\ gen' = <<g[1], g[2] + 2 * n>>
  /\ made' = Append(made, [seed |-> seed, n |-> n, name |-> name, noise |-> noise,
                           x |-> Draws(g, n), z |-> Draws(<<g[1], g[2] + n>>, n)])
Disturb == gen[2] < 3 /\ gen' = <<gen[1], gen[2] + 1>> /\ UNCHANGED made
Reseed(s) == gen' = <<s, 0>> /\ UNCHANGED made
Next == \/ \E seed \in Seeds \cup {NoSeed}, n \in Sizes, name \in Names, noise \in Noises : Make(seed, n, name, noise)
        \/ Disturb
        \/ \E s \in Seeds : Reseed(s)
Spec == Init /\ [][Next]_vars

Indices == 1 .. Len(made)
Seeded(a) == made[a].seed # NoSeed
\* a call with a seed depends on its arguments only; the signal and noise have no influence on the draws
Determined == \A a, b \in Indices : (Seeded(a) /\ made[a].seed = made[b].seed /\ made[a].n = made[b].n) =>
                 made[a].x = made[b].x /\ made[a].z = made[b].z
\* inputs and gaussians do not share draws
Independent == \A a \in Indices : made[a].x \cap made[a].z = {} /\ Cardinality(made[a].x) = made[a].n
\* the scaled signals on a grid
GridSeq == [k \in 1 .. Grid + 1 |-> FRat(k - 1, Grid)]
UnitRange == \A name \in Names : LET ys == Scaled(RawSeq(name, GridSeq)) IN
  /\ \A k \in 1 .. Len(ys) : FLe(FInt(0), ys[k]) /\ FLe(ys[k], FInt(1))
  /\ \E k \in 1 .. Len(ys) : FEq(ys[k], FInt(0))
  /\ \E k \in 1 .. Len(ys) : FEq(ys[k], FInt(1))
ASSUME Grid > 0 => UnitRange
\* blocks are constant between the positions
ASSUME Grid > 0 => \A k \in 1 .. Grid :
  (\A j \in 1 .. 11 : FLt(GridSeq[k + 1], Pos[j]) \/ FLt(Pos[j], GridSeq[k])) => FClose(Blocks(GridSeq[k]), Blocks(GridSeq[k + 1]), FInt(0), FRat(1, 1000000000))
=============================================================================
