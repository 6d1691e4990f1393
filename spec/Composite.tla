----------------------------- MODULE Composite -----------------------------
(***************************************************************************)
(* P12, P13, P27.  How composite grids are put together from rules.         *)
(*                                                                         *)
(* A radial rule is a sequence of <<r, w>>, an angular rule a sequence of     *)
(* <<x, y, z, w>>.  Here all numbers are integers, so that products are exact *)
(* both in floating point and in TLC; RealComposite does the same over the  *)
(* real numbers of Dyadic.                                                  *)
(*                                                                         *)
(* A pruned grid is built by consuming the radial rule from the left:       *)
(* AddRegion(len, a) takes the next len radial points and an angular rule a. *)
(* A grid with one region is the unpruned product.  The state records the   *)
(* regions and the grid listed so far.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Products

---------------------------------------------------------------------------
VARIABLES rad,      \* the radial rule
          cen,      \* the centre
          regions,  \* <<first, end, angular rule>>, 0-based half-open
          grid      \* the points listed so far
gvars == <<rad, cen, regions, grid>>

n == Len(rad)
Used == IF regions = <<>> THEN 0 ELSE regions[Len(regions)][2]
Start(r, c) == rad = r /\ cen = c /\ regions = <<>> /\ grid = <<>>
AddRegion(len, a) ==
  /\ len >= 1 /\ Used + len <= n
  /\ regions' = Append(regions, <<Used, Used + len, a>>)
  /\ grid' = grid \o Sphere(Sub(rad, Used, Used + len), a, cen)
  /\ UNCHANGED <<rad, cen>>
Complete == Used = n

\* design-level properties of the construction
Tiles == \A k \in 1..Len(regions) :
           /\ regions[k][1] < regions[k][2]
           /\ regions[k][1] = IF k = 1 THEN 0 ELSE regions[k - 1][2]
RECURSIVE CountFrom(_)
CountFrom(k) == IF k > Len(regions) THEN 0
                ELSE (regions[k][2] - regions[k][1]) * Len(regions[k][3]) + CountFrom(k + 1)
Counted == Len(grid) = CountFrom(1)
\* every radial point is used in exactly one region
UsedOnce == Complete => \A i \in 0..(n - 1) :
  Cardinality({k \in 1..Len(regions) : regions[k][1] <= i /\ i < regions[k][2]}) = 1
\* one region covering everything is the unpruned product
SingleIsProduct == Complete /\ Len(regions) = 1 => grid = Sphere(rad, regions[1][3], cen)
\* splitting a region in two with the same angular rule only permutes the grid
BagOf(s) == [p \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = p})]
SplitPermutes == Complete /\ Len(regions) = 2 /\ regions[1][3] = regions[2][3] =>
  BagOf(grid) = BagOf(Sphere(rad, regions[1][3], cen))
=============================================================================
