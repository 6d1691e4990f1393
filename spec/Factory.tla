------------------------------ MODULE Factory ------------------------------
(***************************************************************************)
(* P15.  The runtime factories.  A request names schemes by value; the model *)
(* either rejects it or delivers the grid that direct construction of the    *)
(* named types delivers (recorded alongside as d), bit for bit, with the     *)
(* number of points the request implies.                                    *)
(* A behaviour is the stages of a request: Resolve the radial scheme, Bind    *)
(* its parameters, Resolve the angular scheme and sizes, Deliver.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Catalogue
Log == JsonDeserialize(IOEnv.VF_LOG)
Radials == {"becke", "mk", "mhl", "ta"}

VARIABLES req, stage, points
vars == <<req, stage, points>>
R == Log[req]
Q == R.q
Init == req \in 1..Len(Log) /\ stage = "asked" /\ points = 0

RECURSIVE Total(_, _)
Total(g, k) == IF k > Len(g) THEN 0 ELSE (g[k][2] - g[k][1]) * g[k][4] + Total(g, k + 1)

Reject(why) == stage' = why /\ UNCHANGED <<req, points>>
Resolve == /\ stage = "asked"
           /\ IF Q.kind = "s2" THEN stage' = "bound" /\ UNCHANGED <<req, points>>
              ELSE IF Q.s \notin Radials THEN Reject("unknown radial scheme")
              ELSE stage' = "radial" /\ UNCHANGED <<req, points>>
Bind == /\ stage = "radial"
        /\ IF Q.how = "none" THEN Reject("no parameters")
           ELSE IF Q.ts # Q.s THEN Reject("parameters of another scheme")
           ELSE stage' = "bound" /\ UNCHANGED <<req, points>>
Angular == /\ stage = "bound"
           /\ CASE Q.kind = "radial" -> stage' = "deliver" /\ points' = Q.n /\ UNCHANGED req
                [] Q.kind \in {"s2", "unpruned"} ->
                     IF Q.fam \notin FamilySet THEN Reject("unknown angular scheme")
                     ELSE IF ~IsSize(Q.fam, Q.na) THEN Reject("unsupported size")
                     ELSE stage' = "deliver" /\ UNCHANGED req /\ points' = IF Q.kind = "s2" THEN Q.na ELSE Q.n * Q.na
                [] Q.kind = "pruned" ->
                     IF Q.rg = <<>> THEN Reject("no regions")
                     ELSE IF \E k \in 1..Len(Q.rg) : Q.rg[k][3] # Q.rg[1][3] THEN Reject("mixed angular schemes")
                     ELSE IF \E k \in 1..Len(Q.rg) : Q.rg[k][3] \notin FamilySet THEN Reject("unknown angular scheme")
                     ELSE IF \E k \in 1..Len(Q.rg) : ~IsSize(Q.rg[k][3], Q.rg[k][4]) THEN Reject("unsupported size")
                     ELSE stage' = "deliver" /\ UNCHANGED req /\ points' = Total(Q.rg, 1)
Next == Resolve \/ Bind \/ Angular
Spec == Init /\ [][Next]_vars

Rejecting == stage \notin {"asked", "radial", "bound", "deliver"}
Rejected == Rejecting => ~R.f.ok
Delivered == stage = "deliver" =>
   /\ R.f.ok /\ R.d.ok
   /\ R.f.np = points /\ R.f.nw = points
   /\ R.f.h = R.d.h /\ R.d.np = points /\ R.d.nw = points
Alias == [request |-> R.line, stage |-> stage, points |-> points, factory |-> R.f, direct |-> R.d]
=============================================================================
