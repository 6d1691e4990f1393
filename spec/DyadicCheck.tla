---------------------------- MODULE DyadicCheck ----------------------------
(* The Java overrides of Dyadic compute what DyadicPure defines.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Dyadic
P == INSTANCE DyadicPure

Rnd(i, j) == (((((i * 7919 + j * 10007) + 12345) % 65521) * (((i + 3 * j) % 97) + 1)) + i) % 32768
Digits(i) == [j \in 1..(1 + (i % 9)) |-> CASE ((i + j) % 11) = 0 -> 0
                                            [] ((i + j) % 13) = 0 -> 32767
                                            [] OTHER -> Rnd(i, j)]
Sample(i) == P!Norm(IF (i % 3) = 0 THEN -1 ELSE 1, (i % 7) - 4, Digits(i))
N == 40
S == [i \in 1..N |-> IF i = 1 THEN Zero ELSE IF i = 2 THEN One ELSE Sample(i)]
Ints == {-32768, -32767, -5, -1, 0, 1, 2, 3, 7, 255, 32767, 32768, 32769, 1000003, 2147483647}

\* coefficients for vectors: a few slices of S
V(k, n) == [i \in 1..n |-> S[1 + ((i * k + k * k) % N)]]

ASSUME \A i \in 1..N : LET x == S[i] IN
  /\ Neg(x) = P!Neg(x) /\ Abs(x) = P!Abs(x) /\ Trunc(x) = P!Trunc(x)
  /\ Sub(x, x) = Zero /\ Add(x, Zero) = x
ASSUME \A n \in Ints : FromInt(n) = P!FromInt(n)
ASSUME \A i, j \in 1..N : LET x == S[i] y == S[j] IN
  /\ Add(x, y) = P!Add(x, y) /\ Sub(x, y) = P!Sub(x, y) /\ Mul(x, y) = P!Mul(x, y)
  /\ Cmp(x, y) = P!Cmp(x, y) /\ MagCmp(x, y) = P!MagCmp(x, y)
  /\ FAdd(x, y) = P!FAdd(x, y) /\ FSub(x, y) = P!FSub(x, y) /\ FMul(x, y) = P!FMul(x, y)
ASSUME \A i \in 1..N : \A j \in {2, 3, 7, 12, 19} : FDiv(S[i], S[j]) = P!FDiv(S[i], S[j])
ASSUME \A i \in 1..N : \A n \in {1, 2, 3, 7, 100, 32767, 1000003} :
  /\ FDivInt(S[i], n) = P!FDivInt(S[i], n) /\ FMulInt(S[i], n) = P!FMulInt(S[i], n)
ASSUME \A k \in 1..4 : LET a == V(k, 9) b == V(k + 3, 9) c == V(k + 5, 9) IN
  /\ VAdd(a, b) = P!VAdd(a, b) /\ VSub(a, b) = P!VSub(a, b) /\ VMul(a, b) = P!VMul(a, b)
  /\ VScale(a, S[k + 4]) = P!VScale(a, S[k + 4]) /\ VConst(S[k], 5) = P!VConst(S[k], 5)
  /\ SortPerm(a) = P!SortPerm(a) /\ SortPerm(a \o b \o a) = P!SortPerm(a \o b \o a)
  /\ Dot(a, b) = P!Dot(a, b) /\ Sum(a) = P!Sum(a) /\ MaxAbs(a) = P!MaxAbs(a)
  /\ LegStep(a, b, c, k) = P!LegStep(a, b, c, k) /\ ChebStep(a, b, c) = P!ChebStep(a, b, c)
  /\ LET pts == [i \in 1..5 |-> <<a[i], b[i], c[i]>>] IN
       Proj(pts, <<S[4], S[5], S[6]>>) = P!Proj(pts, <<S[4], S[5], S[6]>>)
\* field identities on the exact operations
ASSUME \A i, j, k \in 1..12 : LET x == S[i] y == S[j] z == S[k] IN
  /\ Mul(x, Add(y, z)) = Add(Mul(x, y), Mul(x, z)) /\ Sub(Add(x, y), y) = x
ASSUME PrintT("DYADIC-OK")

VARIABLE z
Init == z = 0
Next == z' = z
=============================================================================
