------------------------------ MODULE Pruning ------------------------------
(***************************************************************************)
(* P14.  The pruning schemes.  A scheme is given as a list of cuts: the      *)
(* radial range is consumed from the left by Cut(k) actions, each taking the *)
(* points up to the k-th boundary with the k-th angular size.  The recorded  *)
(* regions (empty ones are of no consequence and dropped) must be the         *)
(* behaviour's, and the generated grid the one those regions prescribe.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, PruneScheme
Log == JsonDeserialize(IOEnv.VF_LOG)

VARIABLES req, cut, used, regions, points
vars == <<req, cut, used, regions, points>>
R == Log[req]

Rejects(r) == r.scheme = "robust" /\ ~IsSize(r.fam, r.base)
Init == req \in 1..Len(Log) /\ cut = 0 /\ used = 0 /\ regions = <<>> /\ points = 0
Cut == /\ ~Rejects(R) /\ cut < NCuts(R.scheme)
       /\ cut' = cut + 1
       /\ LET b == Boundary(R.scheme, R.n, cut + 1)
              a == AngSize(R.scheme, R.fam, R.base, cut + 1)
          IN /\ used' = b
             /\ regions' = IF b > used THEN Append(regions, <<used, b, R.fam, a>>) ELSE regions
             /\ points' = IF R.gen THEN points + (b - used) * a ELSE 0     \* TLC's integers have 32 bits
       /\ UNCHANGED req
Next == Cut
Spec == Init /\ [][Next]_vars
Ended == cut = NCuts(R.scheme)

\* design: the cuts tile the radial range
Tiles == /\ used <= R.n
         /\ \A k \in 1..Len(regions) : regions[k][1] < regions[k][2] /\ regions[k][1] = IF k = 1 THEN 0 ELSE regions[k - 1][2]
         /\ Ended => used = R.n
Catalogued == IsSize(R.fam, R.base) => \A k \in 1..Len(regions) : IsSize(R.fam, regions[k][4])

NonEmpty(s) == SelectSeq(s, LAMBDA x : x[1] # x[2])
Answer(a) ==
  /\ a.ok
  /\ NonEmpty(a.regions) = regions
  /\ Len(a.regions) >= 1 /\ \A k \in 1..Len(a.regions) : a.regions[k][3] = R.fam
  /\ a.rad = R.rad /\ a.params
\* for a base size outside the catalogue only Robust is obliged to reject at once
Regions == /\ Ended /\ IsSize(R.fam, R.base) => Answer(R.c) /\ Answer(R.s)
           /\ Ended /\ ~IsSize(R.fam, R.base) => (R.c.ok => Answer(R.c)) /\ (R.s.ok => Answer(R.s))
           /\ Rejects(R) => ~R.c.ok /\ ~R.s.ok
\* what is generated from such a specification
Grid(a) == IF IsSize(R.fam, R.base)
           THEN a.g.ok /\ a.d.ok /\ a.g.np = points /\ a.g.nw = points /\ a.g.h = a.d.h
           ELSE IF \E k \in 1..Len(regions) : ~IsSize(R.fam, regions[k][4]) THEN ~a.g.ok
           ELSE TRUE      \* the unsupported size is of no region with points
Generated == Ended /\ R.gen => (R.c.ok => Grid(R.c)) /\ (R.s.ok => Grid(R.s))
Alias == [scheme |-> R.scheme, radial |-> R.rad, n |-> R.n, family |-> R.fam, base |-> R.base, expected |-> regions, points |-> points, create |-> R.c, scheme_fn |-> R.s]
=============================================================================
