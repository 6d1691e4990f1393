---------------------------- MODULE AngularExact ----------------------------
(***************************************************************************)
(* P01.  Exactness of the angular grids, decided on grids recorded from the *)
(* implementation.                                                         *)
(*                                                                         *)
(* A quadrature (x_i, w_i) on the unit sphere is exact for all spherical     *)
(* harmonics of degree l iff its l-th zonal moment                          *)
(*        M_l(y) = SUM_i w_i P_l(x_i . y)                                   *)
(* vanishes for every direction y (4*pi for l = 0), because by the addition *)
(* theorem M_l(y) is itself a spherical harmonic of degree l whose           *)
(* coefficients are the grid's moments.  A non-zero harmonic vanishes only   *)
(* on a null set, so generic directions decide it.                          *)
(*                                                                         *)
(* Behaviours: one job per (recorded grid, direction); Load reads the grid,  *)
(* Step advances the Legendre recurrence by one degree, so that the state at *)
(* degree l holds P_l(x_i . y) for every point and the invariant Exact is    *)
(* evaluated at every degree 0 .. advertised order.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Dyadic, Catalogue, Consts

Dir   == IOEnv.VF_DIR
Index == JsonDeserialize(Dir \o "/index.json")
Dirs  == JsonDeserialize(IOEnv.VF_DIRS)     \* integer triples, see Unit
Known == JsonDeserialize(IOEnv.VF_KNOWN)    \* listed findings for this property
Lanes == 48

\* rational point of the unit sphere (stereographic projection of integers)
Unit(d) ==
  LET p == d[1] q == d[2] r == d[3]
      den == p * p + q * q + r * r
  IN <<Rat(2 * p * r, den), Rat(2 * q * r, den), Rat(p * p + q * q - r * r, den)>>

Jobs == {<<g, k>> : g \in 1..Len(Index), k \in 1..Len(Dirs)}
NDir == Len(Dirs)
JobNo(j) == (j[1] - 1) * NDir + j[2]
JobAt(n) == <<((n - 1) \div NDir) + 1, ((n - 1) % NDir) + 1>>
NJobs == Len(Index) * NDir

Tol == TenPow(-11)

VARIABLES lane,  \* the jobs are dealt to lanes that run side by side
          job,   \* number of the job the lane is at, 0 before the first
          l,     \* degree reached
          t, w,  \* x_i . y and the weights
          p, pm, \* P_l(t_i), P_{l-1}(t_i)
          m      \* the zonal moment of degree l
vars == <<lane, job, l, t, w, p, pm, m>>

Grid(j) == Index[JobAt(j)[1]]
Order(j) == OrderOf(Grid(j).fam, Grid(j).n)   \* the order the catalogue promises

---------------------------------------------------------------------------
(* Listed findings.  "missing-orbit": the recorded table lacks a set of     *)
(* points of equal weight; the finding is recognised only if the grid       *)
(* completed by exactly these points is exact.  "degrades-above": the grid  *)
(* is exact up to a lower degree and within a bound above it.               *)
FindingsFor(j) == {i \in 1..Len(Known) : Known[i].fam = Grid(j).fam /\ Known[i].n = Grid(j).n}
Finding(j) == Known[CHOOSE i \in FindingsFor(j) : TRUE]
IsKind(j, kind) == FindingsFor(j) # {} /\ Finding(j).kind = kind
Incomplete(j, ws) == IsKind(j, "missing-orbit") /\ ~Near(Sum(ws), FourPi, Tol)
AllowedDev(j, deg) ==
  IF IsKind(j, "degrades-above") /\ deg > Finding(j).exact_to THEN Finding(j).bound ELSE Tol

---------------------------------------------------------------------------
Moment(ws, ps) == Dot(ws, ps)

Init ==
  /\ lane \in 1..Lanes /\ job = 0 /\ l = -1
  /\ t = <<>> /\ w = <<>> /\ p = <<>> /\ pm = <<>> /\ m = Zero

NextJob == IF job = 0 THEN lane ELSE job + Lanes
Finished == IF job = 0 \/ l = -2 THEN TRUE ELSE l >= Order(job)

AllNum(v) == \A i \in 1..Len(v) : v[i][1] \in {-1, 0, 1}
WellFormed(r) == /\ Len(r.pts) = r.n /\ Len(r.wts) = r.n /\ r.n > 0
                 /\ AllNum(r.wts) /\ \A i \in 1..Len(r.pts) : Len(r.pts[i]) = 3 /\ AllNum(r.pts[i])

Load ==
  /\ Finished /\ NextJob <= NJobs
  /\ job' = NextJob
  /\ UNCHANGED lane
  /\ LET r == JsonDeserialize(Dir \o "/" \o Grid(NextJob).file)
         y == Unit(Dirs[JobAt(NextJob)[2]])
     IN IF ~WellFormed(r)
        THEN l' = -2 /\ t' = <<>> /\ w' = <<>> /\ p' = <<>> /\ pm' = <<>> /\ m' = Zero
        ELSE LET fix == Incomplete(NextJob, r.wts)
                 pts == IF fix THEN r.pts \o Finding(NextJob).pts ELSE r.pts
                 ws  == IF fix THEN r.wts \o VConst(Finding(NextJob).weight, Len(Finding(NextJob).pts))
                               ELSE r.wts
             IN /\ l' = 0
                /\ t' = Proj(pts, y)
                /\ w' = ws
                /\ p' = VConst(One, Len(pts))
                /\ pm' = VConst(Zero, Len(pts))
                /\ m' = Moment(ws, p')
                /\ fix => PrintT(<<"KNOWN", Finding(NextJob).key>>)

Step ==
  /\ ~Finished /\ l >= 0
  /\ l' = l + 1
  /\ p' = LegStep(t, p, pm, l)
  /\ pm' = p
  /\ m' = Moment(w, p')
  /\ UNCHANGED <<lane, job, t, w>>

Next == Load \/ Step
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Target(deg) == IF deg = 0 THEN FourPi ELSE Zero

Exact == l >= 0 => Near(m, Target(l), AllowedDev(job, l))
\* the recorded grid exists and has the advertised order at all
Present == l # -2
Advertised == l >= 0 => Grid(job).order = Order(job)
\* report a listed finding only where it actually shows
KnownShows ==
  (l >= 0 /\ IsKind(job, "degrades-above") /\ ~Near(m, Target(l), Tol))
    => PrintT(<<"KNOWN", Finding(job).key>>)

\* every catalogued grid was recorded, in catalogue order
ASSUME Complete ==
  {<<Index[i].fam, Index[i].n>> : i \in 1..Len(Index)}
    = UNION {{<<f, n>> : n \in Sizes(f)} : f \in FamilySet}

View == <<lane, job, l>>
Alias == [lane |-> lane, job |-> job,
          grid |-> IF job = 0 THEN "-" ELSE Grid(job).file,
          degree |-> l, moment |-> m, allowed |-> IF job = 0 THEN Tol ELSE AllowedDev(job, l)]
=============================================================================
