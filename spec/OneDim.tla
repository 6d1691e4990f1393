------------------------------- MODULE OneDim -------------------------------
(***************************************************************************)
(* P05-P08.  The one-dimensional rules, decided on recorded nodes and       *)
(* weights.                                                                 *)
(*                                                                         *)
(* A rule of n points is characterised by a family of orthogonal             *)
(* polynomials: Gauss-Legendre and Gauss-Lobatto by the Legendre polynomials *)
(* P_k, the Gauss-Chebyshev rules by                                        *)
(*     T_k(x)                    first kind                                 *)
(*     U_k(x)                    second kind                                *)
(*     V_k(2x-1), V_k(cos f) = cos((k+1/2)f)/cos(f/2)    third kind         *)
(* Each behaviour opens a recorded rule and then raises the degree one step  *)
(* at a time (action Raise) by the family's three-term recurrence,           *)
(* evaluated at every recorded node:                                        *)
(*  - "full" recordings of the Legendre rules check at every degree that the *)
(*    moment SUM w_i P_k(x_i) is the integral of P_k (2 for k = 0, else 0),  *)
(*    which is exactness for all polynomials up to that degree;              *)
(*  - at degree n (n-1 for Lobatto) the nodes must be the roots and the      *)
(*    weights the Gauss weights for a unit weight function.                 *)
(* n distinct roots of a polynomial of degree n are all its roots, so with   *)
(* strict monotonicity the nodes are the roots.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Dyadic, Consts

Log == JsonDeserialize(IOEnv.VF_LOG)
Eps == Pow2(-atoi(IOEnv.VF_BITS))        \* 52 or, for single precision, 23
Kinds == {IOEnv.VF_KIND1, IOEnv.VF_KIND2, IOEnv.VF_KIND3}   \* what the check is about
Lanes == 48
NJobs == Len(Log)
E(k) == FMulInt(Eps, k)

VARIABLES lane, job, k, x, w, p, pm, m
vars == <<lane, job, k, x, w, p, pm, m>>

R == Log[job]
N == R.n
Legendre(j) == Log[j].kind \in {"gl", "lobatto"}
Cheb(j)     == Log[j].kind \in {"gc1", "gc2", "gc3"}
IsRule(j)   == Log[j].what = "rule"

Top(j) == IF ~IsRule(j) THEN 0
          ELSE LET r == Log[j] IN
               CASE r.kind = "gl"      -> IF r.mode = "full" THEN 2 * r.n - 1 ELSE r.n
                 [] r.kind = "lobatto" -> IF r.mode = "full" THEN IF 2 * r.n - 3 > r.n - 1 THEN 2 * r.n - 3 ELSE r.n - 1
                                          ELSE r.n - 1
                 [] Cheb(j)            -> r.n
                 [] OTHER              -> 0
RootDegree == IF R.kind = "lobatto" THEN N - 1 ELSE N

IsNum(a) == a[1] \in {-1, 0, 1}
Sound(r) == /\ r.ok /\ Len(r.x) = Len(r.w)
            /\ \A i \in 1..Len(r.x) : IsNum(r.x[i]) /\ IsNum(r.w[i])
            /\ r.what = "rule" => /\ Len(r.x) = Len(r.idx)
                                  /\ r.mode = "full" => Len(r.x) = r.n
            /\ r.what = "trap" => Len(r.x) = r.n

Init == lane \in 1..Lanes /\ job = 0 /\ k = -1 /\ x = <<>> /\ w = <<>> /\ p = <<>> /\ pm = <<>> /\ m = Zero
NextJob == IF job = 0 THEN lane ELSE job + Lanes
Done == IF job = 0 \/ k = -2 THEN TRUE ELSE k >= Top(job)

\* argument of the recurrence
Arg(r) == IF r.kind = "gc3" THEN [i \in 1..Len(r.x) |-> FSub(FMulInt(r.x[i], 2), One)] ELSE r.x
\* the polynomial "of degree -1" that starts the recurrence: q1 = 2 t q0 - q_{-1}
Minus1(r, t) == CASE r.kind = "gc1" -> t                       \* T_{-1} = T_1
                  [] r.kind = "gc3" -> VConst(One, Len(t))     \* V_{-1} = 1
                  [] OTHER -> VConst(Zero, Len(t))             \* U_{-1} = 0

Open ==
  /\ Done /\ NextJob <= NJobs
  /\ job' = NextJob /\ UNCHANGED lane
  /\ LET r == Log[NextJob]
     IN IF r.what = "construct" \/ (r.what = "moments" /\ r.ok) THEN k' = 0 /\ x' = <<>> /\ w' = <<>> /\ p' = <<>> /\ pm' = <<>> /\ m' = Zero
        ELSE IF r.what = "moments" THEN k' = -2 /\ x' = <<>> /\ w' = <<>> /\ p' = <<>> /\ pm' = <<>> /\ m' = Zero
        ELSE IF ~Sound(r) THEN k' = -2 /\ x' = <<>> /\ w' = <<>> /\ p' = <<>> /\ pm' = <<>> /\ m' = Zero
        ELSE /\ k' = 0 /\ w' = r.w
             /\ x' = IF r.what = "rule" THEN Arg(r) ELSE r.x
             /\ p' = VConst(One, Len(r.x))
             /\ pm' = IF r.what = "rule" THEN Minus1(r, x') ELSE <<>>
             /\ m' = Sum(r.w)

Raise ==
  /\ ~Done /\ k >= 0
  /\ k' = k + 1
  /\ p' = IF Legendre(job) THEN LegStep(x, p, pm, k) ELSE ChebStep(x, p, pm)
  /\ pm' = p
  /\ m' = IF R.mode = "full" /\ Legendre(job) THEN Dot(w, p') ELSE Zero
  /\ UNCHANGED <<lane, job, x, w>>

Next == Open \/ Raise
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Rule == IF job > 0 /\ k >= 0 THEN IsRule(job) ELSE FALSE
Full == Rule /\ R.mode = "full"
Opened == job > 0 /\ k = 0

\* construction succeeded with numbers of the right count
Constructed == k # -2
ConstructsAll == Opened => (R.what = "construct" => R.bad = <<>> /\ R.tried = R.hi - R.lo + 1)

MomentTol == E(200 + 16 * N)
LegendreExact ==
  IF Full /\ Legendre(job) THEN
    IF R.kind = "lobatto" /\ k > 2 * N - 3 THEN TRUE
    ELSE Near(m, IF k = 0 THEN FromInt(2) ELSE Zero, MomentTol)
  ELSE TRUE

\* node order and range, judged on the recorded numbers (full) and by flags otherwise
InOpen(a) == IF R.kind = "gc3" THEN Pos(a) /\ Lt(a, One) ELSE Lt(Abs(a), One)
Flags == IF Rule /\ Opened THEN R.asc /\ R.pos /\ R.fin /\ R.np = N /\ R.nw = N ELSE TRUE
Ordered ==
  IF Full /\ Opened THEN
    /\ \A i \in 1..(N - 1) : Lt(R.x[i], R.x[i + 1])
    /\ \A i \in 1..N : Pos(R.w[i])
    /\ IF R.kind = "lobatto"
       THEN /\ R.x[1] = FromInt(-1) /\ R.x[N] = One
            /\ \A i \in 2..(N - 1) : InOpen(R.x[i])
       ELSE \A i \in 1..N : InOpen(R.x[i])
  ELSE TRUE
\* the weights of the modified rule fall to (pi/n)^5 at the ends, to absolute accuracy
Sym == /\ IsNum(R.symp) /\ IsNum(R.symw) /\ Le(R.symp, E(8))
       /\ Le(R.symw, E(256)) \/ (R.kind = "gc2m" /\ Le(R.symwa, E(8)))
Symmetric ==
  IF Rule /\ Opened THEN
    IF R.kind = "gc3" THEN TRUE
    ELSE IF R.mode = "full"
    THEN \A i \in 1..N : /\ Near(R.x[i], Neg(R.x[N + 1 - i]), E(8))
                         /\ NearRel(R.w[i], R.w[N + 1 - i], E(256))
    ELSE Sym
  ELSE TRUE

---------------------------------------------------------------------------
(* Roots and Gauss weights, at the degree of the rule.  A node within d of a *)
(* root has |q(x)| <= d |q'(x)|; the derivative at a root is expressed by    *)
(* the family's own identities.                                             *)
NodeTol == E(16)
Sq(a) == FMul(a, a)
OneMinusSq(a) == FMul(FSub(One, a), FAdd(One, a))
AbsRel(a, b, ta, tr) == Near(a, b, ta) \/ NearRel(a, b, tr)
PiSq == Sq(Pi)

RootOK(i) ==
  LET a == x[i]  q == p[i]  q1 == pm[i]  s == OneMinusSq(a)
  IN CASE R.kind = "gl" -> Le(FMul(Abs(q), s), FMul(FMulInt(NodeTol, N), Abs(q1)))
       [] R.kind = "lobatto" ->
            \* interior nodes: P'_{n-1} = 0, i.e. x P_{n-1} = P_{n-2}; its derivative
            \* there is (1-x^2) P'' = -n(n-1) P_{n-1}
            R.idx[i] \in {1, N} \/ Le(Abs(FSub(FMul(a, q), q1)), FMul(FMulInt(NodeTol, N), Abs(q)))
       [] R.kind = "gc1" -> Le(FMul(Sq(q), s), Sq(FMulInt(NodeTol, N)))
       [] R.kind = "gc2" -> Le(FMul(Abs(q), s), FMulInt(NodeTol, N + 1))
       [] R.kind = "gc3" -> Le(FMul(Sq(q), FMul(s, R.x[i])), Sq(FMulInt(NodeTol, 2 * N + 1)))
       [] OTHER -> TRUE

WeightOK(i) ==
  LET a == x[i]  q1 == pm[i]  s == OneMinusSq(a)  v == w[i]
  IN CASE R.kind = "gl" -> AbsRel(FMul(v, Sq(FMulInt(q1, N))), FMulInt(s, 2), E(32 * (N + 8)), E(64))
       [] R.kind = "lobatto" -> AbsRel(FMul(FMulInt(v, N * (N - 1)), Sq(p[i])), FromInt(2), E(32 * (N + 8)), E(64))
       [] R.kind = "gc1" -> AbsRel(Sq(FMulInt(v, N)), FMul(PiSq, s), E(256), E(64))
       [] R.kind = "gc2" -> AbsRel(Sq(FMulInt(v, N + 1)), FMul(PiSq, s), E(256), E(64))
       [] R.kind = "gc3" -> AbsRel(Sq(FMulInt(v, 2 * N + 1)), FMul(FMulInt(PiSq, 4), FMul(R.x[i], FSub(One, R.x[i]))), E(256), E(64))
       [] OTHER -> TRUE

AtRoots == IF Rule THEN (Legendre(job) \/ Cheb(job)) /\ k = RootDegree ELSE FALSE
Roots   == AtRoots => \A i \in 1..Len(x) : RootOK(i)
Weights == AtRoots => \A i \in 1..Len(x) : WeightOK(i)

---------------------------------------------------------------------------
(* Perez-Jorda's modified Chebyshev rule (closed form), counted so that the  *)
(* nodes ascend.                                                             *)
ModifiedOK(i) ==
  LET j == N + 1 - R.idx[i]
      th == FDivInt(FMulInt(Pi, j), N + 1)
      \* sin and cos of an angle in (0,pi), by reflection into (0,pi/2]
      up == 2 * j > N + 1
      t2 == IF up THEN FDivInt(FMulInt(Pi, N + 1 - j), N + 1) ELSE th
      s == Sin(t2)  c == IF up THEN Neg(Cos(t2)) ELSE Cos(t2)
      s2 == Sq(s)
      node == FAdd(FSub(One, Rat(2 * j, N + 1)),
                   FMul(FDiv(FromInt(2), Pi), FMul(FAdd(One, FMul(Rat(2, 3), s2)), FMul(c, s))))
      wt == FMul(Rat(16, 3 * (N + 1)), Sq(s2))
  IN Near(x[i], node, E(16)) /\ AbsRel(w[i], wt, E(4), E(256))
Modified ==
  IF Rule /\ Opened THEN R.kind = "gc2m" => \A i \in 1..Len(x) : ModifiedOK(i) ELSE TRUE

\* the trapezoid rule on [lo, up]
Scale == IF Cmp(Abs(R.lo), Abs(R.up)) >= 0 THEN Abs(R.lo) ELSE Abs(R.up)
TrapezoidOK ==
  LET h == FDivInt(FSub(R.up, R.lo), N - 1)
      tol == FMul(E(8), Scale)
  IN /\ \A i \in 1..N : Near(x[i], FAdd(R.lo, FMulInt(h, i - 1)), tol)
     /\ \A i \in 1..N : NearRel(w[i], IF i \in {1, N} THEN FMul(h, Rat(1, 2)) ELSE h, E(16))
     \* hence exact for constants and linear functions
     /\ Near(Sum(w), FSub(R.up, R.lo), FMulInt(tol, 2 * N))
     /\ Near(Dot(w, x), FMul(Rat(1, 2), FSub(Sq(R.up), Sq(R.lo))), FMulInt(FMul(tol, FMulInt(Scale, 2)), 2 * N))
Trapezoid == IF Opened THEN (R.what = "trap" => TrapezoidOK) ELSE TRUE

---------------------------------------------------------------------------
(* Every size, by sums over the whole rule (recorded in extended precision):  *)
(* for the Legendre rules the largest moment of the degrees they are exact    *)
(* for; for the Chebyshev rules the power sums of the nodes in the basis T_l, *)
(* which determine the nodes, and those of the squared weights.              *)
SumTol == E(200 + 16 * N)
\* an error d of a node x changes T_l(x) by up to d*l/sqrt(1-x^2), which sums up to about 2*N*N*log(N)*d for l < 2N
RootTol == FMulInt(E(32), 8 + N * N)
Within(lo, hi, v) == Le(FSub(v, lo), RootTol) /\ Le(FSub(hi, v), RootTol)
Half == Rat(1, 2)
PeriodN == CASE R.kind = "gc1" -> 2 * N [] R.kind = "gc2" -> 2 * (N + 1) [] R.kind = "gc3" -> 4 * (2 * N + 1) [] OTHER -> 1
SquaredWeights == FDivInt(PiSq, PeriodN)
SumsOK ==
  /\ R.asc /\ R.pos /\ R.fin /\ R.np = N /\ R.nw = N
  /\ R.kind \in {"gl", "lobatto"} =>
        /\ Sym /\ Near(R.m0, FromInt(2), SumTol) /\ Le(R.worst, SumTol)
        /\ IF R.kind = "gl" THEN InOpen(R.first) /\ InOpen(R.last) ELSE R.first = FromInt(-1) /\ R.last = One
  /\ R.kind \in {"gc1", "gc2", "gc3"} =>
        /\ InOpen(R.first) /\ InOpen(R.last) /\ (R.kind = "gc3" \/ Sym)
        /\ CASE R.kind = "gc1" -> Within(R.oddlo, R.oddhi, Zero)
             [] R.kind = "gc2" -> Within(R.oddlo, R.oddhi, Zero)
             [] OTHER -> Within(R.oddlo, R.oddhi, Half)
        /\ N > 1 => CASE R.kind = "gc1" -> Within(R.evenlo, R.evenhi, Zero)
             [] R.kind = "gc2" -> Within(R.evenlo, R.evenhi, FromInt(-1))
             [] OTHER -> Within(R.evenlo, R.evenhi, Neg(Half))
        /\ N > 2 => LET t == FMul(E(64 + 16 * N), SquaredWeights) IN
             /\ Near(R.m0, SquaredWeights, t) /\ Near(R.m2, Neg(FMul(SquaredWeights, Half)), t) /\ Le(R.rest, t)
  \* sums of sin^4 and sin^8 over the modified rule
  /\ R.kind = "gc2m" =>
        /\ Sym /\ InOpen(R.first) /\ InOpen(R.last)
        /\ N > 1 => NearRel(R.m0, FromInt(2), E(256))
        /\ N > 3 => NearRel(R.m2, Rat(70, 9 * (N + 1)), E(512))
Sums == IF Opened THEN (R.what = "moments" => SumsOK) ELSE TRUE

\* every size of the stated range was recorded in full
ASSUME Covered ==
  \A kd \in Kinds \ {"-"} : \A n \in atoi(IOEnv.VF_NLO)..atoi(IOEnv.VF_NHI) :
     \E j \in 1..NJobs : IsRule(j) /\ Log[j].kind = kd /\ Log[j].n = n /\ Log[j].mode = "full"

View == <<lane, job, k>>
Alias == [rule |-> IF job = 0 THEN <<>> ELSE [f \in DOMAIN R \cap {"what", "kind", "n", "mode", "ok", "bad", "lo", "up"} |-> R[f]],
          degree |-> k, moment |-> m]
=============================================================================
