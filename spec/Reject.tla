------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* P04.  Requests for angular grids of every size, by every route that ends  *)
(* in constructing one.  The model accepts a request exactly when the size   *)
(* is catalogued and then delivers base + mult * size points.                *)
(* A behaviour asks one route for sizes 0, 1, 2, ... in turn.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Catalogue
Log == JsonDeserialize(IOEnv.VF_LOG)
Acc == [k \in 1..Len(Log) |-> {Log[k].accepted[i][1] : i \in 1..Len(Log[k].accepted)}]

VARIABLES route, size, got   \* got: how many requests were accepted so far
vars == <<route, size, got>>
R == Log[route]
Accepts(n) == IsSize(R.fam, n)
Init == route \in 1..Len(Log) /\ size = 0 /\ got = IF IsSize(Log[route].fam, 0) THEN 1 ELSE 0
Next == /\ size < R.hi /\ size' = size + 1 /\ UNCHANGED route
        /\ got' = got + (IF Accepts(size + 1) THEN 1 ELSE 0)
Spec == Init /\ [][Next]_vars

Constructs == (size \in Acc[route]) <=> Accepts(size)
\* an accepted request is answered with the whole grid
Entire == Accepts(size) => R.accepted[got] = <<size, R.base + R.mult * size, R.base + R.mult * size>>
Finished == size = R.hi => /\ Len(R.accepted) = got /\ R.rejected = R.hi + 1 - got
                           /\ R.huge = 0 /\ ~R.other
ASSUME Routes == Cardinality({<<Log[k].route, Log[k].fam>> : k \in 1..Len(Log)}) = 4 * 12
Alias == [route |-> R.route, family |-> R.fam, size |-> size, accepted |-> size \in Acc[route], catalogued |-> Accepts(size)]
=============================================================================
