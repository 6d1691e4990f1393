------------------------------ MODULE Dyadic ------------------------------
(***************************************************************************)
(* The operators of DyadicPure under a module name for which               *)
(* java/Dyadic.java provides TLC operator overrides.  Without the class on *)
(* the classpath TLC evaluates the definitions below; with it, it must     *)
(* compute the same values faster, which DyadicCheck.tla checks.           *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL D == INSTANCE DyadicPure

Zero == <<0, 0, <<>>>>
One == <<1, 0, <<1>>>>
FromInt(n) == D!FromInt(n)
Neg(x) == D!Neg(x)
Abs(x) == D!Abs(x)
Add(x, y) == D!Add(x, y)
Sub(x, y) == D!Sub(x, y)
Mul(x, y) == D!Mul(x, y)
Cmp(x, y) == D!Cmp(x, y)
MagCmp(x, y) == D!MagCmp(x, y)
Trunc(x) == D!Trunc(x)
FAdd(x, y) == D!FAdd(x, y)
FSub(x, y) == D!FSub(x, y)
FMul(x, y) == D!FMul(x, y)
FMulInt(x, n) == D!FMulInt(x, n)
FDiv(x, y) == D!FDiv(x, y)
FDivInt(x, n) == D!FDivInt(x, n)
VAdd(a, b) == D!VAdd(a, b)
VSub(a, b) == D!VSub(a, b)
VMul(a, b) == D!VMul(a, b)
VScale(a, x) == D!VScale(a, x)
VConst(x, n) == D!VConst(x, n)
Dot(a, b) == D!Dot(a, b)
Sum(a) == D!Sum(a)
LegStep(t, p, pm, l) == D!LegStep(t, p, pm, l)
ChebStep(t, p, pm) == D!ChebStep(t, p, pm)
Proj(pts, y) == D!Proj(pts, y)
MaxAbs(a) == D!MaxAbs(a)
SortPerm(a) == D!SortPerm(a)

Le(x, y) == Cmp(x, y) <= 0
Lt(x, y) == Cmp(x, y) < 0
Pos(x) == x[1] = 1
IsZero(x) == x[1] = 0
\* 2^k for any integer k
Pow2(k) == LET q == k \div 15 r == k % 15 IN <<1, q, <<2^r>>>>
\* |x - y| <= tol
Near(x, y, tol) == MagCmp(Sub(x, y), tol) <= 0
\* |x - y| <= tol * |y|
NearRel(x, y, tol) == MagCmp(Sub(x, y), Mul(tol, y)) <= 0
\* |x - y| <= tol * max(1,|y|)
NearMix(x, y, tol) == Near(x, y, tol) \/ NearRel(x, y, tol)
Rat(n, d) == FDiv(FromInt(n), FromInt(d))
=============================================================================
