---------------------------- MODULE AngularShape ----------------------------
(***************************************************************************)
(* P02.  Every recorded angular grid is a set of distinct unit vectors with *)
(* one finite non-zero weight each.                                        *)
(*                                                                         *)
(* Behaviours: per lane, grids are opened one after the other; each is       *)
(* measured (norms), then sorted along a generic direction.  Two points that *)
(* coincide (to 1e-10) are within 1e-10 of each other in the projection, so  *)
(* each point need only be compared with its successors up to that distance. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Dyadic, Catalogue, Consts

Dir   == IOEnv.VF_DIR
Index == JsonDeserialize(Dir \o "/index.json")
Lanes == 64
NJobs == Len(Index)

UnitTol == TenPow(-14)
SameTol == TenPow(-10)
RelTol  == Pow2(-48)
Y == <<Rat(48, 169), Rat(36, 169), Rat(-159, 169)>>   \* any generic direction

VARIABLES lane, job,
          stage,    \* "idle", "open", "sorted", "malformed"
          pts, wts,
          err,      \* largest deviation of |x|^2 from 1
          proj, ord \* projections on Y; the permutation sorting them
vars == <<lane, job, stage, pts, wts, err, proj, ord>>

Init == /\ lane \in 1..Lanes /\ job = 0 /\ stage = "idle"
        /\ pts = <<>> /\ wts = <<>> /\ err = Zero /\ proj = <<>> /\ ord = <<>>
NextJob == IF job = 0 THEN lane ELSE job + Lanes

IsNum(x) == x[1] \in {-1, 0, 1}
Counts(r) == /\ Len(r.pts) = r.n /\ Len(r.wts) = r.n /\ r.n > 0
             /\ \A i \in 1..Len(r.pts) : Len(r.pts[i]) = 3 /\ \A k \in 1..3 : IsNum(r.pts[i][k])
             /\ \A i \in 1..Len(r.wts) : IsNum(r.wts[i])

Axis(k) == [i \in 1..3 |-> IF i = k THEN One ELSE Zero]
Square(r, k) == LET x == Proj(r, Axis(k)) IN VMul(x, x)
NormErr(r) == MaxAbs(VSub(VAdd(VAdd(Square(r, 1), Square(r, 2)), Square(r, 3)), VConst(One, Len(r))))

Open ==
  /\ stage \in {"idle", "sorted", "malformed"} /\ NextJob <= NJobs
  /\ job' = NextJob /\ UNCHANGED lane
  /\ proj' = <<>> /\ ord' = <<>>
  /\ LET r == JsonDeserialize(Dir \o "/" \o Index[NextJob].file)
     IN IF ~Counts(r) THEN stage' = "malformed" /\ pts' = <<>> /\ wts' = <<>> /\ err' = Zero
        ELSE stage' = "open" /\ pts' = r.pts /\ wts' = r.wts /\ err' = NormErr(r.pts)

Sort ==
  /\ stage = "open"
  /\ stage' = "sorted"
  /\ proj' = Proj(pts, Y)
  /\ ord' = SortPerm(proj')
  /\ UNCHANGED <<lane, job, pts, wts, err>>

Next == Open \/ Sort
Spec == Init /\ [][Next]_vars

WellFormed == stage # "malformed"
UnitNorm == Le(err, UnitTol)
NonZero  == stage = "open" => \A i \in 1..Len(wts) : wts[i][1] # 0
Close(p, q) == \A c \in 1..3 : Near(p[c], q[c], SameTol)
RECURSIVE ClearFrom(_, _)
ClearFrom(k, j) ==
  IF j > Len(ord) THEN TRUE
  ELSE IF ~Near(proj[ord[j]], proj[ord[k]], SameTol) THEN TRUE
  ELSE ~Close(pts[ord[k]], pts[ord[j]]) /\ ClearFrom(k, j + 1)
Distinct == stage = "sorted" => \A k \in 1..Len(ord) : ClearFrom(k, k + 1)
EqualWeights ==
  stage = "open" /\ Index[job].fam = "Womersley" =>
    LET w == FDivInt(FourPi, Len(wts))
    IN Le(MaxAbs(VSub(wts, VConst(w, Len(wts)))), Mul(w, RelTol))

ASSUME Complete ==
  {<<Index[i].fam, Index[i].n>> : i \in 1..Len(Index)}
    = UNION {{<<f, n>> : n \in Sizes(f)} : f \in FamilySet}

View == <<lane, job, stage>>
Alias == [lane |-> lane, grid |-> IF job = 0 THEN "-" ELSE Index[job].file, stage |-> stage, normerr |-> err]
=============================================================================
