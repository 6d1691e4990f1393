------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* P31.  User-defined rules, maps and combinations.                          *)
(*                                                                         *)
(* A request names a user rule (whose nodes and weights are the integer       *)
(* sequences below), whether it contains the ends of its interval, and a       *)
(* user map a x^2 + b x + c with derivative 2 a x + b.  The machine asks the    *)
(* rule for n points (n + 2 when the ends are to be dropped), then maps one    *)
(* interior node after the other; the composites are made of what it built.    *)
(* The rule lives on [-6/d, 6/d]: its nodes and weights are those integers    *)
(* over d, and the map takes d x for x, so that the grid is one of integers.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Products
Node(i, m) == ((7 * i * i + 3 * i * m) % 13) - 6
Wt(i, m) == ((5 * i + m) % 11) + 1
Base(m) == [i \in 1..m |-> <<Node(i, m), Wt(i, m)>>]
Ang(k) == [j \in 1..k |-> <<j, 2 - j, ((j * j) % 3) - 1, j + 3>>]
VARIABLES q, grid
gvars == <<q, grid>>
Map(x) == q.a * x * x + q.b * x + q.c
Jac(x) == 2 * q.a * x + q.b
Off == IF q.incl THEN 1 ELSE 0
Asked == q.n + 2 * Off
MapNode == Len(grid) < q.n /\ UNCHANGED q
           /\ LET e == Base(Asked)[Len(grid) + 1 + Off] IN grid' = Append(grid, <<Map(e[1]), e[2] * Jac(e[1])>>)
Complete == Len(grid) = q.n
Cen == q.cen
Spherical == Sphere(grid, Ang(q.k), Cen)
\* two regions (one when there is a single radial point): the first with one angular point less, but at least one
Cut == q.n \div 2
Less == IF q.k = 1 THEN 1 ELSE q.k - 1
PrunedGrid == IF Cut = 0 THEN Spherical ELSE Sphere(Sub(grid, 0, Cut), Ang(Less), Cen) \o Sphere(Sub(grid, Cut, q.n), Ang(q.k), Cen)
\* a product of the grid and the base rule under a user's combination of different types:
\* points <<r, x, r + x>>, weights 3 wr - wx
Comb == LET Op(p, e) == <<p[1], e[1], p[1] + e[1], 3 * p[2] - e[2]>> IN Product(grid, Base(q.k), Op)
=============================================================================
