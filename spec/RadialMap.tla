------------------------------ MODULE RadialMap ------------------------------
(***************************************************************************)
(* P09, P10, P11.  Radial grids as the image of a finite-interval rule under *)
(* the published maps, their invariants, and the interval transforms.        *)
(*                                                                         *)
(* A radial grid is the state of a small machine: the underlying rule is      *)
(* built (Open), then one interior node after the other is mapped (MapNode),  *)
(* in ascending order; the state after i steps is the first i points of the  *)
(* grid.  The recorded grid must agree at every step, and must keep the       *)
(* machine's invariants: positive, ascending, positive weights.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Dyadic, Consts

Log == JsonDeserialize(IOEnv.VF_LOG)
Eps == Pow2(-atoi(IOEnv.VF_BITS))
Lanes == 64
NJobs == Len(Log)
E(k) == FMulInt(Eps, k)
Sq(a) == FMul(a, a)

VARIABLES lane, job, i
vars == <<lane, job, i>>
R == Log[job]

IsNum(a) == a[1] \in {-1, 0, 1}
AllNum(s) == \A j \in 1..Len(s) : IsNum(s[j])
\* "mhl" is of order 2; a name ending in T is a map over the trapezoid rule
Order(s) == CASE s = "mhl1" -> 1 [] s = "mhl" -> 2 [] s = "mhl3" -> 3 [] s = "mhl4" -> 4 [] s = "mhl5" -> 5 [] OTHER -> 0
Offset(s) == IF s = "mk" \/ s = "beckeT" \/ s = "taT" \/ Order(s) > 0 THEN 1 ELSE 0      \* interval ends dropped
RECURSIVE PowN(_, _)
PowN(x, k) == IF k = 0 THEN One ELSE FMul(x, PowN(x, k - 1))
Sound(r) ==
  CASE r.what = "grid"  -> /\ r.ok /\ Len(r.r) = r.n /\ Len(r.w) = r.n
                           /\ Len(r.bx) = r.n + 2 * Offset(r.scheme) /\ Len(r.bw) = Len(r.bx)
                           /\ AllNum(r.r) /\ AllNum(r.w) /\ AllNum(r.bx) /\ AllNum(r.bw)
    [] r.what = "pgrid" -> /\ r.ok /\ r.bn = r.n + 2 * Offset(r.scheme) /\ Len(r.r) > 0
                           /\ Len(r.r) = Len(r.w) /\ Len(r.r) = Len(r.bx) /\ Len(r.bx) = Len(r.bw)
                           /\ AllNum(r.r) /\ AllNum(r.w) /\ AllNum(r.bx) /\ AllNum(r.bw)
    [] r.what \in {"scale", "same"} -> /\ r.ok /\ Len(r.r) = r.n /\ Len(r.w) = r.n /\ Len(r.rc) = r.n /\ Len(r.wc) = r.n
                           /\ AllNum(r.r) /\ AllNum(r.w) /\ AllNum(r.rc) /\ AllNum(r.wc)
    [] r.what = "bt" -> IsNum(r.pt2) /\ IsNum(r.w2)
    [] OTHER -> TRUE
Steps(r) == IF r.what \in {"grid", "scale", "same"} THEN r.n ELSE IF r.what = "pgrid" THEN Len(r.r) ELSE 1

Init == lane \in 1..Lanes /\ job = 0 /\ i = 0
NextJob == IF job = 0 THEN lane ELSE job + Lanes
Done == IF job = 0 \/ i = -1 THEN TRUE ELSE i >= Steps(R)
Open == /\ Done /\ NextJob <= NJobs
        /\ job' = NextJob /\ UNCHANGED lane
        /\ i' = IF Sound(Log[NextJob]) THEN 0 ELSE -1
MapNode == ~Done /\ i' = i + 1 /\ UNCHANGED <<lane, job>>
Next == Open \/ MapNode
Spec == Init /\ [][Next]_vars

At(what) == IF job > 0 /\ i > 0 THEN R.what = what ELSE FALSE
WellFormed == i # -1
Half(a) == Mul(a, Pow2(-1))

---------------------------------------------------------------------------
(* P09: node and derivative of the map                                     *)
Node == LET b == IF R.what = "grid" THEN i + Offset(R.scheme) ELSE i
            x == R.bx[b]  wb == R.bw[b]  r == R.r[i]  w == R.w[i]
            a == FSub(One, x)  c == FAdd(One, x)
        IN CASE R.scheme \in {"becke", "beckeT"} ->
                  \* r = R (1+x)/(1-x),  dr/dx = 2R/(1-x)^2
                  /\ NearRel(FMul(r, a), FMul(R.R, c), E(16))
                  /\ NearRel(FMul(w, Sq(a)), FMul(FMulInt(R.R, 2), wb), E(32))
             [] Order(R.scheme) > 0 ->
                  \* r = R x^M/(1-x)^M,  dr/dx = M R x^(M-1)/(1-x)^(M+1)
                  LET M == Order(R.scheme) IN
                  /\ NearRel(FMul(r, PowN(a, M)), FMul(R.R, PowN(x, M)), E(16 * M))
                  /\ NearRel(FMul(w, PowN(a, M + 1)), FMul(FMulInt(FMul(R.R, PowN(x, M - 1)), M), wb), E(16 * (M + 1)))
            [] R.scheme = "mk" ->
                  \* r = -R ln(1-x^3),  dr/dx = 3R x^2/(1-x^3)
                  LET q == FSub(One, FMul(x, Sq(x)))
                      rhs == FMul(FMulInt(FMul(R.R, Sq(x)), 3), wb)
                  IN /\ Near(Exp(Neg(FDiv(r, R.R))), q, FAdd(E(16), FMul(E(16), FMul(q, FDiv(r, R.R)))))
                     /\ Le(FMul(Abs(FSub(FMul(w, q), rhs)), q), FMul(E(32), rhs))
             [] R.scheme \in {"ta", "taT"} ->
                  \* r = R (1+x)^alpha ln(2/(1-x)) / ln 2
                  LET ln == Ln(FDiv(FromInt(2), a))
                      pw == FDiv(FMul(R.R, Pow(c, R.alpha)), Ln2)
                      tol == FMul(E(32), FAdd(One, FDiv(One, c)))
                  IN /\ NearRel(r, FMul(pw, ln), tol)
                     /\ NearRel(w, FMul(FMul(wb, pw), FAdd(FDiv(FMul(R.alpha, ln), c), FDiv(One, a))), tol)
Mapped == At("grid") \/ At("pgrid") => Node
\* the underlying rule is the interior of its interval: nothing but the ends is dropped
Interior == At("grid") =>
  LET x == R.bx[i + Offset(R.scheme)]
  IN IF Offset(R.scheme) = 1 THEN /\ Pos(x) /\ Lt(x, One)
                                  /\ Near(R.bx[1], Zero, E(1)) /\ Near(R.bx[Len(R.bx)], One, E(4))
     ELSE Lt(Abs(x), One)

---------------------------------------------------------------------------
(* P10                                                                     *)
\* a larger grid, recorded at a few nodes only
InteriorSome == At("pgrid") => LET x == R.bx[i] IN IF Offset(R.scheme) = 1 THEN Pos(x) /\ Lt(x, One) ELSE Lt(Abs(x), One)
Series == At("grid") \/ At("pgrid") \/ At("scale") \/ At("same")
Positive == Series => Pos(R.r[i]) /\ Pos(R.w[i])
Ascending == Series => (i > 1 => Lt(R.r[i - 1], R.r[i]))
Flags == (At("grid") \/ At("pgrid") \/ At("scale") \/ At("big")) =>
  (i = 1 => R.asc /\ R.pos /\ R.fin /\ R.ppos /\ R.np = R.n /\ R.nw = R.n)
Built == At("big") => R.ok
Scales == At("scale") =>
  /\ NearRel(FMul(R.rc[i], R.R), FMul(R.r[i], R.RC), E(16))
  /\ NearRel(FMul(R.wc[i], R.R), FMul(R.w[i], R.RC), E(16))
Defaults == At("same") => R.r[i] = R.rc[i] /\ R.w[i] = R.wc[i]

---------------------------------------------------------------------------
(* P11: the four interval transforms of a node t in (-1,1) with weight w      *)
Transform ==
  LET t == R.pt  w == R.w  y == R.pt2  v == R.w2
      a == FSub(One, t)  c == FAdd(One, t)
      s == IF Cmp(Abs(R.lo), Abs(R.up)) >= 0 THEN Abs(R.lo) ELSE Abs(R.up)
  IN CASE ~R.loinf /\ ~R.upinf ->     \* y = ((up-lo) t + up + lo)/2
            /\ Near(y, Half(FAdd(FMul(FSub(R.up, R.lo), t), FAdd(R.up, R.lo))), FMul(E(8), s))
            /\ NearRel(v, FMul(w, Half(FSub(R.up, R.lo))), E(16))
            /\ Le(FSub(R.lo, y), FMul(E(4), s)) /\ Le(FSub(y, R.up), FMul(E(4), s))
       [] ~R.loinf /\ R.upinf ->      \* y = lo + (1+t)/(1-t)
            /\ Near(FMul(FSub(y, R.lo), a), c, FAdd(E(16), FMul(E(8), FMul(Abs(R.lo), a))))
            /\ NearRel(FMul(v, Sq(a)), FMulInt(w, 2), E(32))
            /\ Le(R.lo, y)
       [] R.loinf /\ ~R.upinf ->      \* y = up - (1-t)/(1+t)
            /\ Near(FMul(FSub(R.up, y), c), a, FAdd(E(16), FMul(E(8), FMul(Abs(R.up), c))))
            /\ NearRel(FMul(v, Sq(c)), FMulInt(w, 2), E(32))
            /\ Le(y, R.up)
       [] OTHER ->                    \* y = t/(1-t^2)
            LET q == FMul(a, c) IN
            /\ NearRel(FMul(y, q), t, E(16))
            /\ Le(FMul(Abs(FSub(FMul(v, Sq(q)), FMul(w, FAdd(One, Sq(t))))), q), FMul(E(32), Abs(FMulInt(w, 2))))
Transforms == At("bt") => Transform
WeightSign == At("bt") => R.w2[1] = R.w[1]
\* consecutive requests for the same interval with ascending nodes
SameInterval(a, b) == /\ a.what = "bt" /\ b.what = "bt" /\ a.loinf = b.loinf /\ a.upinf = b.upinf
                      /\ a.lo = b.lo /\ a.up = b.up
Increasing ==
  At("bt") => (job > 1 => (SameInterval(Log[job - 1], R) /\ Lt(Log[job - 1].pt, R.pt)
                             => Le(Log[job - 1].pt2, R.pt2)))

View == vars
Alias == [request |-> IF job = 0 THEN <<>> ELSE [f \in DOMAIN R \cap {"what", "scheme", "n", "how", "h1", "h2", "R", "alpha", "ok", "loinf", "upinf", "lo", "up", "pt", "pt2", "w2"} |-> R[f]],
          step |-> i]
=============================================================================
