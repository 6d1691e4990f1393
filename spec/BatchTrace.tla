----------------------------- MODULE BatchTrace -----------------------------
(***************************************************************************)
(* Recorded batchings.  A behaviour delivers the batches of one recorded      *)
(* batcher in turn; pos counts the points delivered so far.  Coordinates and  *)
(* weights are ranks among the input's values (-1: not one of them).          *)
(***************************************************************************)
EXTENDS Batching, TLC, Json, IOUtils, Dyadic
Log == JsonDeserialize(IOEnv.VF_LOG)
Bits == atoi(IOEnv.VF_BITS)

VARIABLES job, k, pos
vars == <<job, k, pos>>
R == Log[job]
B == R.batches[k]
N == Len(R.in)
Init == job \in 1..Len(Log) /\ k = 0 /\ pos = 0
Deliver == /\ k < Len(R.batches) /\ k' = k + 1 /\ UNCHANGED job
           /\ pos' = pos + Len(R.batches[k + 1].pts)
Next == Deliver
Spec == Init /\ [][Next]_vars
Auto == R.kind = "auto"
Ended == k = Len(R.batches)

\* ---- P21: nothing lost, nothing invented
Permutation == k = 0 =>
  /\ R.npts = N /\ Len(R.grid) = N /\ Len(R.from) = N /\ R.quad = R.grid
  /\ {R.from[i] : i \in 1..N} = 1..N
  /\ \A i \in 1..N : R.grid[i] = R.in[R.from[i]]
Consecutive == k > 0 => /\ B.pts # <<>> /\ pos <= Len(R.grid)
                        /\ B.pts = SubSeq(R.grid, pos - Len(B.pts) + 1, pos)
Everything == Ended => pos = N
\* ---- P22: small enough, or inseparable
Tiny(b) == \A i \in 1..3 : MagCmp(Sub(b[i][2], b[i][1]),
              Mul(Pow2(3 - Bits), IF MagCmp(b[i][1], b[i][2]) > 0 THEN Abs(b[i][1]) ELSE Abs(b[i][2]))) <= 0
SmallEnough == k > 0 /\ Auto => Len(B.pts) <= R.max \/ (Len(B.big) = 3 /\ Tiny(B.big))
Reported == R.exact /\ (Ended => R.nb = k)
\* ---- P23: tight, apart
Tight == k > 0 => <<B.lo, B.up>> = Box(B.pts)
Apart == k > 0 /\ Auto => \A j \in 1..(k - 1) : LET C == R.batches[j] IN Separated(<<B.lo, B.up>>, <<C.lo, C.up>>)   \* tight, as checked above
\* ---- P24: every way of reaching a batch is the same
Styles == k = 0 => \A i \in 1..Len(R.styles) : R.styles[i][2] = R.styles[1][2] /\ Len(R.styles[i][2]) = R.nb
Bounded == R.beyond = 0
Explicit == ~Auto => /\ (k = 0 => R.grid = R.in /\ R.nb = Len(R.idx) - 1)
                     /\ (k > 0 => pos = R.idx[k + 1])
\* boundaries given twice or more delimit batches without points
Empties == k = 0 => \A i \in 1..Len(R.dups) : LET D == R.dups[i] IN
   /\ D.nb = Len(D.idx) - 1 /\ Len(D.ranges) = D.nb
   /\ \A j \in 1..D.nb : LET n == D.idx[j + 1] - D.idx[j] IN D.ranges[j] = <<n, n, n, D.idx[j], D.idx[j]>>
Alias == [job |-> job, kind |-> R.kind, label |-> R.label, npts |-> N, max |-> R.max, nb |-> R.nb, k |-> k, pos |-> pos,
          batch |-> IF k > 0 THEN [lo |-> B.lo, up |-> B.up, n |-> Len(B.pts)] ELSE [n |-> 0],
          beyond |-> R.beyond, bad_styles |-> {R.styles[i][1] : i \in {j \in 1..Len(R.styles) : R.styles[j][2] # R.styles[1][2]}}, input |-> IF N <= 8 THEN R.in ELSE <<>>]
=============================================================================
