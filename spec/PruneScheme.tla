---------------------------- MODULE PruneScheme ----------------------------
(* The published pruning schemes as functions: where they cut the radial      *)
(* range of n points and which angular sizes they use.                       *)
EXTENDS Integers, Sequences, Catalogue
Size(f, o) == SizeOf(f, NextOrder(f, o))
Boundary(s, n, k) == CASE s = "robust"   -> <<(n \div 4) + 1, (n \div 2) + 1, n>>[k]
                       [] s = "treutler" -> <<(n \div 3) + 1, (n \div 2) + 1, n>>[k]
                       [] s = "unpruned" -> n
NCuts(s) == IF s = "unpruned" THEN 1 ELSE 3
Medium(s, f, base) ==
  IF s = "treutler" THEN Size(f, 11)
  ELSE LET o == OrderOf(f, base) IN Size(f, IF o > 6 THEN o - 6 ELSE o)
AngSize(s, f, base, k) ==
  IF s = "unpruned" \/ k = 3 THEN base ELSE IF k = 1 THEN Size(f, 7) ELSE Medium(s, f, base)


\* all regions of a scheme, empty ones left out
RECURSIVE RegionsFrom(_, _, _, _, _, _)
RegionsFrom(s, n, f, base, k, used) ==
  IF k > NCuts(s) THEN <<>>
  ELSE LET b == Boundary(s, n, k)
           rest == RegionsFrom(s, n, f, base, k + 1, b)
       IN IF b > used THEN <<<<used, b, f, AngSize(s, f, base, k)>>>> \o rest ELSE rest
RegionsOf(s, n, f, base) == RegionsFrom(s, n, f, base, 1, 0)
=============================================================================
