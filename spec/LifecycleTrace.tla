--------------------------- MODULE LifecycleTrace ---------------------------
(* Recorded programs: after every operation every live object shows what the   *)
(* model's does.  A batching's order and boundaries are taken from the record  *)
(* and must be a batching of the source grid.                                 *)
EXTENDS Lifecycle, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)
VARIABLES prog, k, st, src, chosen      \* source grid and chosen batching of the last step
vars == <<prog, k, st, src, chosen>>
E == Log[prog][k]
Op(e) == e.o
RECURSIVE Sums(_, _)
Sums(bs, i) == IF i = 0 THEN <<0>> ELSE LET t == Sums(bs, i - 1) IN Append(t, t[Len(t)] + Len(bs[i][3]))
Observed(e) == IF e.o[1] \in Auto THEN LET b == e.b[e.o[2] + 1] IN [p |-> b.pts, idx |-> Sums(b.bs, Len(b.bs))] ELSE [p |-> <<>>, idx |-> <<>>]
Init == prog \in 1..Len(Log) /\ k = 0 /\ st = Empty /\ src = <<>> /\ chosen = <<>>
Step == LET e == Log[prog][k + 1] IN
        /\ k' = k + 1 /\ UNCHANGED prog
        /\ src' = IF e.o[1] \in Auto THEN Cell(st, Source(st, e.o)).p ELSE <<>>
        /\ chosen' = Observed(e)
        /\ st' = Do(st, e.o, Observed(e))
Good == IF k = 0 THEN TRUE ELSE IF E.o[1] \in Auto THEN IsBatching(src, chosen.p, chosen.idx, E.o[4]) ELSE TRUE
\* do not follow a batching that is none
Next == IF k < Len(Log[prog]) THEN (IF Good THEN Step ELSE FALSE) ELSE FALSE
Spec == Init /\ [][Next]_vars

IsBatched == Good
Grid(e, v) == IF v = <<>> THEN DOMAIN e = {} ELSE DOMAIN e # {} /\ e.c = v.c /\ e.pts = v.p /\ e.npts = Len(v.p)
Values  == k > 0 => \A a \in 0..1 : Grid(E.g[a + 1], ShowG(st, a))
Handles == k > 0 => \A a \in 0..1 : Grid(E.s[a + 1], ShowS(st, a))
Batchers == k > 0 /\ Good => \A a \in 0..2 :
   LET e == E.b[a + 1]  v == ShowB(st, a) IN
   IF v = <<>> THEN DOMAIN e = {}
   ELSE /\ DOMAIN e # {} /\ e.c = v.cell.c /\ e.pts = v.cell.p /\ e.qpts = v.cell.p /\ e.npts = Len(v.cell.p)
        /\ e.max = v.max /\ e.nb = Len(v.batches) /\ Len(e.bs) = e.nb
        /\ \A i \in 1..e.nb : e.bs[i][3] = v.batches[i]
\* P23 over histories: every delivered box is the tightest, by every way of reaching the batch
TightIn(l) == \A i \in 1..Len(l) : l[i][3] # <<>> => <<l[i][1], l[i][2]>> = Box(l[i][3])
Tight == k > 0 => \A a \in 1..3 : DOMAIN E.b[a] # {} => TightIn(E.b[a].bs) /\ TightIn(E.b[a].at)
\* P24 over histories: indexing and iterating agree
SameAt == k > 0 => \A a \in 1..3 : DOMAIN E.b[a] # {} => E.b[a].at = E.b[a].bs
Alias == [prog |-> prog, k |-> k, op |-> IF k > 0 THEN E.o ELSE <<>>, good |-> Good, program |-> [i \in 1..k |-> Log[prog][i].o],
          model |-> [g |-> [a \in 0..1 |-> ShowG(st, a)], s |-> [a \in 0..1 |-> ShowS(st, a)], b |-> [a \in 0..2 |-> ShowB(st, a)]],
          code |-> IF k > 0 THEN [g |-> E.g, s |-> E.s, b |-> E.b] ELSE [g |-> <<>>]]
=============================================================================
