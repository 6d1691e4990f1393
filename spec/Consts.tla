------------------------------- MODULE Consts -------------------------------
(* Mathematical constants and elementary functions to about 70 bits,       *)
(* computed from their series.                                              *)
EXTENDS Integers, Sequences, Dyadic

RECURSIVE TenUp(_)
TenUp(k) == IF k = 0 THEN One ELSE Mul(FromInt(10), TenUp(k - 1))
\* 10^k for any integer k
TenPow(k) == IF k >= 0 THEN TenUp(k) ELSE FDiv(One, TenUp(-k))

\* a number below which a series term no longer matters
Tiny == Pow2(-88)

\* atan(1/n) = SUM (-1)^k / ((2k+1) n^(2k+1))
RECURSIVE AtanInv(_, _, _, _)
AtanInv(nn, term, k, acc) ==
  IF MagCmp(term, Tiny) < 0 THEN acc
  ELSE AtanInv(nn, Neg(FDivInt(term, nn)), k + 1, FAdd(acc, FDivInt(term, 2 * k + 1)))
ArcCot(n) == AtanInv(n * n, FDivInt(One, n), 0, Zero)

Pi     == FMulInt(FSub(FMulInt(ArcCot(5), 4), ArcCot(239)), 4)
FourPi == FMulInt(Pi, 4)

\* exp(x) = (SUM (x/2^s)^k / k!)^(2^s) with s = 2 + bits of the integer part
RECURSIVE ExpSeries(_, _, _, _), Squared(_, _), HalvingsFor(_, _)
ExpSeries(x, term, k, acc) ==
  IF MagCmp(term, Tiny) < 0 THEN FAdd(acc, term)
  ELSE ExpSeries(x, FDivInt(FMul(term, x), k + 1), k + 1, FAdd(acc, term))
Squared(x, s) == IF s = 0 THEN x ELSE Squared(FMul(x, x), s - 1)
HalvingsFor(x, s) == IF MagCmp(x, Pow2(s - 5)) <= 0 THEN s ELSE HalvingsFor(x, s + 1)
Exp(x) == IF IsZero(x) THEN One
          ELSE LET s == HalvingsFor(x, 0) IN Squared(ExpSeries(Mul(x, Pow2(-s)), One, 0, Zero), s)

\* atanh series: ln(x) = 2 atanh((x-1)/(x+1)), after halving/doubling x into [2/3,4/3]
RECURSIVE AtanhFrom(_, _, _, _)
AtanhFrom(z2, zk, k, acc) ==
  IF MagCmp(zk, Tiny) < 0 THEN acc
  ELSE AtanhFrom(z2, FMul(zk, z2), k + 1, FAdd(acc, FDivInt(zk, 2 * k + 1)))
LnNear1(x) == LET z == FDiv(FSub(x, One), FAdd(x, One))
              IN FMulInt(AtanhFrom(FMul(z, z), z, 0, Zero), 2)
Ln2 == Neg(LnNear1(Rat(1, 2)))
RECURSIVE LnScaled(_, _)
LnScaled(x, k) ==
  IF Cmp(x, Rat(4, 3)) > 0 THEN LnScaled(Mul(x, Pow2(-1)), k + 1)
  ELSE IF Cmp(x, Rat(2, 3)) < 0 THEN LnScaled(FMulInt(x, 2), k - 1)
  ELSE FAdd(LnNear1(x), FMulInt(Ln2, k))
Ln(x) == IF x = One THEN Zero ELSE LnScaled(x, 0)

\* x^a for x > 0
Pow(x, a) == IF IsZero(a) THEN One ELSE Exp(FMul(a, Ln(x)))

\* square root by Newton from a starting guess, x > 0
RECURSIVE SqrtIter(_, _, _), SqrtScale(_, _)
SqrtIter(x, g, n) == IF n = 0 THEN g ELSE SqrtIter(x, Mul(FAdd(g, FDiv(x, g)), Pow2(-1)), n - 1)
SqrtScale(x, k) ==   \* bring x into [1/4, 4) by powers of 4
  IF Cmp(x, FromInt(4)) >= 0 THEN SqrtScale(Mul(x, Pow2(-2)), k + 1)
  ELSE IF Cmp(x, Pow2(-2)) < 0 THEN SqrtScale(FMulInt(x, 4), k - 1)
  ELSE Mul(SqrtIter(x, FDivInt(FAdd(x, One), 2), 8), Pow2(k))
Sqrt(x) == IF IsZero(x) THEN Zero ELSE SqrtScale(x, 0)

\* sin and cos of an angle in [-8, 8], Taylor after halving three times
RECURSIVE SinS(_, _, _, _), CosS(_, _, _, _)
SinS(x2, term, k, acc) == IF MagCmp(term, Tiny) < 0 THEN acc
  ELSE SinS(x2, Neg(FDivInt(FMul(term, x2), (2 * k + 2) * (2 * k + 3))), k + 1, FAdd(acc, term))
CosS(x2, term, k, acc) == IF MagCmp(term, Tiny) < 0 THEN acc
  ELSE CosS(x2, Neg(FDivInt(FMul(term, x2), (2 * k + 1) * (2 * k + 2))), k + 1, FAdd(acc, term))
Sin(x) == SinS(FMul(x, x), x, 0, Zero)
Cos(x) == CosS(FMul(x, x), One, 0, Zero)
=============================================================================
