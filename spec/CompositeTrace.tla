--------------------------- MODULE CompositeTrace ---------------------------
(* P12, P13.  Recorded constructions validated against Composite.  A case    *)
(* records the rules and regions that were asked for, and every distinct     *)
(* output together with the API routes that gave it.  Each sphere output is  *)
(* followed region by region: the recorded grid must have the specification's*)
(* grid as a prefix after every AddRegion, and be equal to it at the end.    *)
EXTENDS Composite, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)

VARIABLES case, out
vars == <<case, out, rad, cen, regions, grid>>
Case == Log[case]
O == Case.outs[out]

Init == \E k \in 1..Len(Log) : \E j \in 1..Len(Log[k].outs) :
          case = k /\ out = j /\ Start(Log[k].rad, IF Log[k].outs[j].kind = "sphere" THEN Log[k].outs[j].c ELSE <<0, 0, 0>>)
Step == Len(regions) + 1
Next == /\ Step <= Len(Case.regions)
        /\ Case.regions[Step][1] = Used
        /\ AddRegion(Case.regions[Step][2] - Case.regions[Step][1], Case.regions[Step][3])
        /\ UNCHANGED <<case, out>>
Spec == Init /\ [][Next]_vars

Followed == Complete \/ ENABLED Next      \* the plan itself is a behaviour
Prefix == O.kind = "sphere" => Len(O.grid) >= Len(grid) /\ SubSeq(O.grid, 1, Len(grid)) = grid
Ends == O.kind = "sphere" /\ Complete =>
          /\ O.grid = grid /\ O.npts = Len(grid) /\ O.np = Len(grid) /\ O.nw = Len(grid)
\* the reported centre is the one requested; the origin by default
IsDefault(r) == Len(r) >= 14 /\ SubSeq(r, 1, 14) = "default centre"
IsOrigin(r)  == Len(r) >= 9 /\ SubSeq(r, 1, 9) = "at origin"
Centre == O.kind = "sphere" => \A k \in 1..Len(O.routes) :
            O.c = IF IsDefault(O.routes[k]) \/ IsOrigin(O.routes[k]) THEN <<0, 0, 0>> ELSE Case.c
\* a partition read back is the partition put in
ReadBack == O.kind = "partition" => O.list = Case.regions
\* generic products
Ang == Case.regions[1][3]
Second == [j \in 1..Len(Ang) |-> <<Ang[j][1], Ang[j][4]>>]
Generic == O.kind \in {"plain", "mixed", "mixed21"} =>
   LET g == CASE O.kind = "plain" -> Plain(Case.rad, Ang)
              [] O.kind = "mixed" -> Mixed(Case.rad, Second)
              [] OTHER -> Mixed(Second, Case.rad)
   IN O.grid = g /\ O.np = Len(g) /\ O.nw = Len(g)

View == <<case, out, regions, Len(grid)>>
Alias == [case |-> case, kind |-> O.kind, routes |-> O.routes, requested |-> IF Len(Case.rad) + Len(Case.regions[1][3]) <= 40 THEN Case ELSE <<Len(Case.rad), [r \in 1..Len(Case.regions) |-> <<Case.regions[r][1], Case.regions[r][2], Len(Case.regions[r][3])>>]>>, got |-> IF O.kind = "sphere" THEN <<O.c, O.npts, O.np, O.nw>> ELSE <<>>, step |-> Len(regions)]
ASSUME Counts == \A k \in 1..Len(Log) : Len(Log[k].outs) >= 1
=============================================================================
