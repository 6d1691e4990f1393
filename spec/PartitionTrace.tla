--------------------------- MODULE PartitionTrace ---------------------------
(* Recorded programs: after every operation each partition has the model's     *)
(* starts, every way of walking over it visits its regions in order, and the   *)
(* pruned grid made from it has the points of these regions.                  *)
EXTENDS Partition, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)
VARIABLES prog, k, st
vars == <<prog, k, st>>
E == Log[prog][k]
Init == prog \in 1..Len(Log) /\ k = 0 /\ st = Empty
Next == k < Len(Log[prog]) /\ k' = k + 1 /\ st' = Do(st, Log[prog][k + 1].o) /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars
Slots == 0..(NSlots - 1)
Seen(a) == E.s[a + 1]
Live(a) == Kind(Slot(st, a)) \in {"open", "done"}
Indices == k > 0 => \A a \in Slots : IF Live(a) THEN DOMAIN Seen(a) # {} /\ Seen(a).idx = Idx(Slot(st, a)) ELSE DOMAIN Seen(a) = {}
Walks == k > 0 => \A a \in Slots : Kind(Slot(st, a)) = "done" =>
   /\ Len(Seen(a).walks) = 12
   /\ \A w \in 1..12 : Seen(a).walks[w] = Regions(Slot(st, a))
\* region by region, radial index fastest; the radial rule is 1..n with weights 1
RECURSIVE Grid(_, _)
Grid(v, j) == IF j > Len(Q(v)) THEN <<>> ELSE
   LET lo == Idx(v)[j]  m == Idx(v)[j + 1] - lo  A == Rules[Q(v)[j]]
   IN [x \in 1..(m * Len(A)) |-> LET r == lo + ((x - 1) % m) + 1  p == A[((x - 1) \div m) + 1] IN <<r * p[1], r * p[2], r * p[3], p[4] * r * r>>] \o Grid(v, j + 1)
Grids == k > 0 => \A a \in Slots : Kind(Slot(st, a)) = "done" => Seen(a).grid = Grid(Slot(st, a), 1)
Alias == [prog |-> prog, k |-> k, op |-> IF k > 0 THEN E.o ELSE <<>>, model |-> st, code |-> IF k > 0 THEN E.s ELSE <<>>]
=============================================================================
