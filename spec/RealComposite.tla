--------------------------- MODULE RealComposite ---------------------------
(* P12, P13 over real rules: the state machine of Composite, with the exact   *)
(* numbers the code's rules consist of.  The recorded grid must agree with   *)
(* the model's to a few units of rounding at every point of every region.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Dyadic
Log == JsonDeserialize(IOEnv.VF_LOG)
Eps == Pow2(-atoi(IOEnv.VF_BITS))
Chunk == 256

VARIABLES job, reg, pos   \* grid, region, how many points of the region were listed
vars == <<job, reg, pos>>
R == Log[job]
G == R.regions[reg]
Size(r, g) == (g[2] - g[1]) * Len(g[3])
RECURSIVE Offset(_, _)
Offset(r, k) == IF k <= 1 THEN 0 ELSE Offset(r, k - 1) + Size(r, r.regions[k - 1])

Init == job \in 1..Len(Log) /\ reg = 1 /\ pos = 0
List == pos < Size(R, G) /\ pos' = (IF pos + Chunk > Size(R, G) THEN Size(R, G) ELSE pos + Chunk) /\ UNCHANGED <<job, reg>>
NextRegion == pos = Size(R, G) /\ reg < Len(R.regions) /\ reg' = reg + 1 /\ pos' = 0 /\ UNCHANGED job
Next == List \/ NextRegion
Spec == Init /\ [][Next]_vars

Counted == LET t == Offset(R, Len(R.regions) + 1) IN R.npts = t /\ R.np = t /\ R.nw = t /\ Len(R.grid) = t
Centre == R.gc = R.c
Tol(p, c) == Mul(Eps, Add(Abs(p), Abs(c)))
PointOK(k) ==
  LET m == G[2] - G[1]
      r == R.rad[G[1] + ((k - 1) % m) + 1]
      a == G[3][((k - 1) \div m) + 1]
      g == R.grid[Offset(R, reg) + k]
  IN /\ \A i \in 1..3 : LET p == FMul(r[1], a[i]) IN Near(g[i], FAdd(R.c[i], p), FMulInt(Tol(p, R.c[i]), 4))
     /\ NearRel(g[4], FMul(FMul(r[2], a[4]), FMul(r[1], r[1])), FMulInt(Eps, 8))
From == ((pos - 1) \div Chunk) * Chunk + 1
Listed == pos > 0 /\ Counted => \A k \in From..pos : PointOK(k)
Alias == [job |-> job, kind |-> R.kind, region |-> reg, pos |-> pos, npts |-> R.npts]
=============================================================================
