----------------------------- MODULE DyadicPure -----------------------------
(***************************************************************************)
(* Exact and K-digit arithmetic on dyadic rationals, in plain TLA+.        *)
(*                                                                         *)
(* A number is <<s, e, d>>: a sign s in {-1,0,1}, an exponent e and a       *)
(* sequence d of base-B digits, least significant first; its value is      *)
(*     s * SUM_i d[i] * B^(e+i-1).                                          *)
(* Numbers are canonical: zero is <<0,0,<<>>>>, otherwise the first and the *)
(* last digit are non-zero.  Hence equality of values is equality of       *)
(* representations, and every IEEE double is representable exactly.        *)
(*                                                                         *)
(* The base is 2^15 so that every intermediate stays within TLC's 32-bit   *)
(* integers.  Operators beginning with F truncate (towards zero) to the K   *)
(* leading digits, i.e. to at least 15*(K-1)+1 = 76 significant bits,      *)
(* 23 bits more than the doubles they judge.                          *)
(*                                                                         *)
(* This module is the definition.  Dyadic.tla re-exports it under a module *)
(* name for which a Java class overrides the operators; DyadicCheck.tla     *)
(* checks the overrides against the definitions given here.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 32768
K == 6

Zero == <<0, 0, <<>>>>

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

RECURSIVE HiIdx(_, _), LoIdx(_, _)
HiIdx(d, i) == IF i = 0 THEN 0 ELSE IF d[i] # 0 THEN i ELSE HiIdx(d, i - 1)
LoIdx(d, i) == IF d[i] # 0 THEN i ELSE LoIdx(d, i + 1)

Norm(s, e, d) ==
  LET hi == HiIdx(d, Len(d))
  IN IF hi = 0 \/ s = 0 THEN Zero
     ELSE LET lo == LoIdx(d, 1) IN <<s, e + lo - 1, SubSeq(d, lo, hi)>>

\* digit of x at absolute position p, and the position above the top digit
Dig(x, p) == LET i == p - x[2] + 1 IN IF i \in 1..Len(x[3]) THEN x[3][i] ELSE 0
Top(x) == x[2] + Len(x[3])

RECURSIVE IntDigits(_)
IntDigits(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o IntDigits(n \div B)
FromInt(n) == Norm(IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0, 0,
                   IntDigits(IF n < 0 THEN -n ELSE n))

Neg(x) == <<-x[1], x[2], x[3]>>
Abs(x) == IF x[1] < 0 THEN Neg(x) ELSE x

\* multiplication by B^k
Shift(x, k) == IF x[1] = 0 THEN x ELSE <<x[1], x[2] + k, x[3]>>

RECURSIVE CmpFrom(_, _, _, _)
CmpFrom(x, y, p, lo) ==
  IF p < lo THEN 0
  ELSE IF Dig(x, p) < Dig(y, p) THEN -1
  ELSE IF Dig(x, p) > Dig(y, p) THEN 1
  ELSE CmpFrom(x, y, p - 1, lo)

MagCmp(x, y) ==
  IF x[1] = 0 THEN (IF y[1] = 0 THEN 0 ELSE -1)
  ELSE IF y[1] = 0 THEN 1
  ELSE CmpFrom(x, y, Max2(Top(x), Top(y)), Min2(x[2], y[2]))

RECURSIVE AddFrom(_, _, _, _, _), SubFrom(_, _, _, _, _)
AddFrom(x, y, p, hi, c) ==
  IF p > hi THEN <<>>
  ELSE LET s == Dig(x, p) + Dig(y, p) + c
       IN <<s % B>> \o AddFrom(x, y, p + 1, hi, s \div B)
SubFrom(x, y, p, hi, b) ==      \* |x| >= |y|
  IF p > hi THEN <<>>
  ELSE LET s == Dig(x, p) - Dig(y, p) - b
       IN <<(s + B) % B>> \o SubFrom(x, y, p + 1, hi, IF s < 0 THEN 1 ELSE 0)

Add(x, y) ==
  IF x[1] = 0 THEN y
  ELSE IF y[1] = 0 THEN x
  ELSE LET lo == Min2(x[2], y[2])
           hi == Max2(Top(x), Top(y))
       IN IF x[1] = y[1] THEN Norm(x[1], lo, AddFrom(x, y, lo, hi, 0))
          ELSE LET c == MagCmp(x, y)
               IN IF c = 0 THEN Zero
                  ELSE IF c > 0 THEN Norm(x[1], lo, SubFrom(x, y, lo, hi, 0))
                  ELSE Norm(y[1], lo, SubFrom(y, x, lo, hi, 0))
Sub(x, y) == Add(x, Neg(y))
Cmp(x, y) == Sub(x, y)[1]

RECURSIVE ScaleDigits(_, _, _, _)
ScaleDigits(d, q, i, c) ==      \* digits of d * q + c, least significant first
  IF i > Len(d) THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o (IF c \div B = 0 THEN <<>> ELSE <<c \div B>>))
  ELSE LET s == d[i] * q + c IN <<s % B>> \o ScaleDigits(d, q, i + 1, s \div B)

RECURSIVE MulRows(_, _, _)
MulRows(x, y, i) ==
  IF i > Len(x[3]) THEN Zero
  ELSE Add(Norm(1, x[2] + i - 1 + y[2], ScaleDigits(y[3], x[3][i], 1, 0)), MulRows(x, y, i + 1))
Mul(x, y) ==
  IF x[1] = 0 \/ y[1] = 0 THEN Zero
  ELSE LET m == MulRows(x, y, 1) IN <<x[1] * y[1], m[2], m[3]>>

Trunc(x) ==
  LET n == Len(x[3])
  IN IF n <= K THEN x ELSE Norm(x[1], x[2] + n - K, SubSeq(x[3], n - K + 1, n))

FAdd(x, y) == Trunc(Add(x, y))
FSub(x, y) == Trunc(Sub(x, y))
FMul(x, y) == Trunc(Mul(x, y))
FMulInt(x, n) == FMul(x, FromInt(n))

\* largest q in lo..hi with q*y <= r   (y > 0, r >= 0, r < B*y)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, y, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF Cmp(Mul(FromInt(m), y), r) <= 0 THEN QDigit(r, y, m, hi) ELSE QDigit(r, y, lo, m - 1)

\* quotient digits from position p down to position lo, most significant first
RECURSIVE QFrom(_, _, _, _)
QFrom(r, y, p, lo) ==
  IF p < lo THEN <<>>
  ELSE LET yp == Shift(y, p)
           q  == QDigit(r, yp, 0, B - 1)
       IN <<q>> \o QFrom(Sub(r, Mul(FromInt(q), yp)), y, p - 1, lo)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* truncated quotient: all digits of |x/y| down to position Top(x)-Top(y)-K
FDiv(x, y) ==
  IF x[1] = 0 THEN Zero
  ELSE LET hi == Top(x) - Top(y)
           lo == hi - K
           q  == Rev(QFrom(Abs(x), Abs(y), hi, lo))
       IN Trunc(Norm(x[1] * y[1], lo, q))
FDivInt(x, n) == FDiv(x, FromInt(n))

-----------------------------------------------------------------------------
(* Vectors: sequences of numbers.                                          *)

VAdd(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> FSub(a[i], b[i])]
VMul(a, b) == [i \in 1..Len(a) |-> FMul(a[i], b[i])]
VScale(a, x) == [i \in 1..Len(a) |-> FMul(a[i], x)]
VConst(x, n) == [i \in 1..n |-> x]

RECURSIVE DotFrom(_, _, _, _)
DotFrom(a, b, i, acc) ==
  IF i > Len(a) THEN acc ELSE DotFrom(a, b, i + 1, FAdd(acc, FMul(a[i], b[i])))
Dot(a, b) == DotFrom(a, b, 1, Zero)

RECURSIVE SumFrom(_, _, _)
SumFrom(a, i, acc) == IF i > Len(a) THEN acc ELSE SumFrom(a, i + 1, FAdd(acc, a[i]))
Sum(a) == SumFrom(a, 1, Zero)

\* one step of (l+1) P_{l+1} = (2l+1) t P_l - l P_{l-1}, elementwise
LegStep(t, p, pm, l) ==
  [i \in 1..Len(t) |->
     FDivInt(FSub(FMulInt(FMul(t[i], p[i]), 2 * l + 1), FMulInt(pm[i], l)), l + 1)]

\* one step of T_{k+1} = 2 t T_k - T_{k-1}, elementwise
ChebStep(t, p, pm) ==
  [i \in 1..Len(t) |-> FSub(FMulInt(FMul(t[i], p[i]), 2), pm[i])]

\* rows <<x,y,z>> times a direction
Proj(pts, y) ==
  [i \in 1..Len(pts) |->
     FAdd(FAdd(FMul(pts[i][1], y[1]), FMul(pts[i][2], y[2])), FMul(pts[i][3], y[3]))]

\* the stable permutation that sorts the numbers of a ascending
RECURSIVE InsertAt(_, _, _), SortPermTo(_, _)
InsertAt(a, s, i) ==   \* index i into the sorted index sequence s
  IF s = <<>> THEN <<i>>
  ELSE IF Cmp(a[i], a[s[Len(s)]]) >= 0 THEN Append(s, i)
  ELSE Append(InsertAt(a, SubSeq(s, 1, Len(s) - 1), i), s[Len(s)])
SortPermTo(a, n) == IF n = 0 THEN <<>> ELSE InsertAt(a, SortPermTo(a, n - 1), n)
SortPerm(a) == SortPermTo(a, Len(a))

RECURSIVE MaxAbsFrom(_, _, _)
MaxAbsFrom(a, i, m) ==
  IF i > Len(a) THEN m
  ELSE MaxAbsFrom(a, i + 1, IF MagCmp(a[i], m) > 0 THEN Abs(a[i]) ELSE m)
MaxAbs(a) == MaxAbsFrom(a, 1, Zero)
=============================================================================
