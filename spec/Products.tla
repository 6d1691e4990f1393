------------------------------ MODULE Products ------------------------------
(* Products of rules; see Composite. *)
EXTENDS Integers, Sequences
(* The product of two rules: first index fastest.                          *)
Product(rad, ang, Op(_, _)) ==
  LET m == Len(rad) IN
  [ij \in 1..(m * Len(ang)) |-> Op(rad[((ij - 1) % m) + 1], ang[((ij - 1) \div m) + 1])]

\* a point of a spherical grid is <<x, y, z, weight>>
Sphere(rad, ang, c) ==
  LET Op(r, a) == <<c[1] + r[1] * a[1], c[2] + r[1] * a[2], c[3] + r[1] * a[3], r[2] * a[4] * r[1] * r[1]>>
  IN Product(rad, ang, Op)
\* a generic product (no volume element, no centre), as a radial x angular one
Plain(rad, ang) ==
  LET Op(r, a) == <<r[1] * a[1], r[1] * a[2], r[1] * a[3], r[2] * a[4]>> IN Product(rad, ang, Op)
\* and a generic product of two radial rules under an asymmetric combination
Mixed(r1, r2) ==
  LET Op(p, q) == <<10 * p[1] + q[1], 10 * p[2] + q[2]>> IN Product(r1, r2, Op)

Sub(s, b, e) == SubSeq(s, b + 1, e)    \* elements b .. e-1 of a 0-based rule

=============================================================================
