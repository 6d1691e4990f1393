------------------------------ MODULE Batching ------------------------------
(***************************************************************************)
(* P21 - P24.  What a batching of a grid is.  Points are <<x, y, z, w>> over  *)
(* any totally ordered set of coordinates; here integers (values, or ranks of *)
(* values).  A batching is an order of the points and a division of it into   *)
(* consecutive batches.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Lower(a, b) == IF a <= b THEN a ELSE b
Higher(a, b) == IF a >= b THEN a ELSE b
\* the tightest axis-aligned box around a non-empty sequence of points
Box(ps) == FoldLeft(LAMBDA b, p : <<<<Lower(b[1][1], p[1]), Lower(b[1][2], p[2]), Lower(b[1][3], p[3])>>,
                                    <<Higher(b[2][1], p[1]), Higher(b[2][2], p[2]), Higher(b[2][3], p[3])>>>>,
                    <<<<ps[1][1], ps[1][2], ps[1][3]>>, <<ps[1][1], ps[1][2], ps[1][3]>>>>, ps)
\* some axis-aligned plane has one box on each side (they may touch it)
Separated(b1, b2) == \E k \in 1..3 : b1[2][k] <= b2[1][k] \/ b2[2][k] <= b1[1][k]
Coincide(ps) == LET b == Box(ps) IN b[1] = b[2]
\* batch k of the points divided at 0-based boundaries idx
Slice(ps, idx, k) == SubSeq(ps, idx[k] + 1, idx[k + 1])
Count(ps, p) == Cardinality({i \in 1..Len(ps) : ps[i] = p})
SameBag(ps, qs) == Len(ps) = Len(qs) /\ \A i \in 1..Len(ps) : Count(ps, ps[i]) = Count(qs, ps[i])
Divides(idx, m) == /\ Len(idx) >= 2 /\ idx[1] = 0 /\ idx[Len(idx)] = m
                   /\ \A k \in 1..(Len(idx) - 1) : idx[k] < idx[k + 1]
\* a valid batching of ps: order qs, boundaries idx
IsBatching(ps, qs, idx, max) ==
  /\ SameBag(ps, qs) /\ Divides(idx, Len(ps))
  /\ \A k \in 1..(Len(idx) - 1) : idx[k + 1] - idx[k] <= max \/ Coincide(Slice(qs, idx, k))
  /\ \A k \in 1..(Len(idx) - 1), j \in 1..(Len(idx) - 1) : j < k => Separated(Box(Slice(qs, idx, k)), Box(Slice(qs, idx, j)))
=============================================================================
