----------------------------- MODULE SpecValues -----------------------------
(***************************************************************************)
(* P18.  Grid specifications as values.  Three pruned and two unpruned         *)
(* specifications are constructed, copied, assigned, modified (also through   *)
(* the parameter object they own), pruned and turned into grids.  A slot holds *)
(* <<scheme, parameters, regions>> or <<scheme, parameters, family, size>>,     *)
(* or <<>> when there is no object.  Parameters are numbered values of Param;  *)
(* -1 is their absence.  An operation on one slot leaves all others alone:     *)
(* there is no sharing in the model.                                          *)
(*                                                                           *)
(* An operation is <<name, a, b, c, d>>; Do(st, op) is the next state with the *)
(* result, which is 0, a number of points, or -1 for a rejection.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, PruneScheme

Scheme == <<"becke", "mk", "mhl", "ta">>
\* <<scheme index, size, parameters>>
Param == <<<<0, 4, 1>>, <<0, 4, 2>>, <<0, 5, 1>>, <<1, 4, 1>>, <<2, 4, 1>>, <<3, 4, 1>>, <<3, 4, 3>>>>
NP == 7
PScheme(i) == Param[i + 1][1]
PSize(i) == Param[i + 1][2]
Huge == 2000000000      \* how the driver shows values beyond 32 bits (here 2^32 + 6 and 2^32 + 4)
Region == <<<<0, 4, "LebedevLaikov", 6>>, <<0, 4, "LebedevLaikov", 14>>, <<0, 2, "LebedevLaikov", 6>>,
            <<2, 4, "Delley", 14>>, <<1, 4, "LebedevLaikov", 6>>, <<0, 4, "Delley", 14>>,
            <<0, 4, "LebedevLaikov", Huge>>, <<0, Huge, "LebedevLaikov", 6>>>>
PruneName == <<"unpruned", "robust", "treutler">>

\* st = [p: 3 slots, u: 2 slots, res]
Empty == [p |-> <<<<>>, <<>>, <<>>>>, u |-> <<<<>>, <<>>>>, res |-> 0]
SetP(st, a, v) == [st EXCEPT !.p[a + 1] = v, !.res = 0]
SetU(st, a, v) == [st EXCEPT !.u[a + 1] = v, !.res = 0]
Res(st, r) == [st EXCEPT !.res = r]
P(st, a) == st.p[a + 1]
U(st, a) == st.u[a + 1]
Matches(scheme, param) == param >= 0 /\ scheme = Scheme[PScheme(param) + 1]

RECURSIVE Points(_, _, _)
\* the last region extends to the end of the radial grid
Points(r, n, k) == IF k > Len(r) THEN 0
  ELSE ((IF k = Len(r) THEN n ELSE r[k][2]) - r[k][1]) * r[k][4] + Points(r, n, k + 1)

Do(st, op) ==
  LET a == op[2]  b == op[3]  c == op[4]  d == op[5] IN
  CASE op[1] = "new"       -> SetP(st, a, <<Scheme[b + 1], c, <<Region[d + 1]>>>>)
    [] op[1] \in {"copy", "assign", "byval", "massign"} -> SetP(st, a, P(st, b))
    [] op[1] = "setscheme" -> SetP(st, a, <<Scheme[b + 1], P(st, a)[2], P(st, a)[3]>>)
    [] op[1] \in {"setparams", "poke"} -> SetP(st, a, <<P(st, a)[1], b, P(st, a)[3]>>)
    [] op[1] = "addregion" -> SetP(st, a, <<P(st, a)[1], P(st, a)[2], P(st, a)[3] \o [k \in 1..(1 + 2 * c) |-> Region[b + 1]]>>)
    [] op[1] = "setregion" -> SetP(st, a, <<P(st, a)[1], P(st, a)[2], [P(st, a)[3] EXCEPT ![(c % Len(P(st, a)[3])) + 1] = Region[b + 1]]>>)
    [] op[1] = "delregion" -> SetP(st, a, <<P(st, a)[1], P(st, a)[2], LET r == P(st, a)[3]  i == ((b % Len(r)) + 1) IN SubSeq(r, 1, i - 1) \o SubSeq(r, i + 1, Len(r))>>)
    [] op[1] = "clear"     -> SetP(st, a, <<P(st, a)[1], P(st, a)[2], <<>>>>)
    [] op[1] = "destroy"   -> SetP(st, a, <<>>)
    [] op[1] = "generate"  -> Res(st, IF Matches(P(st, a)[1], P(st, a)[2]) /\ (\A k \in 1..Len(P(st, a)[3]) : IsSize(P(st, a)[3][k][3], P(st, a)[3][k][4])) THEN Points(P(st, a)[3], PSize(P(st, a)[2]), 1) ELSE -1)
    [] op[1] = "unew"      -> SetU(st, a, <<Scheme[b + 1], c, IF d = 1 THEN "Delley" ELSE "LebedevLaikov", 14>>)
    [] op[1] = "ucopy"     -> SetU(st, a, U(st, b))
    [] op[1] \in {"usetparams", "upoke"} -> SetU(st, a, [U(st, a) EXCEPT ![2] = b])
    [] op[1] = "usetscheme" -> SetU(st, a, [U(st, a) EXCEPT ![1] = Scheme[b + 1]])
    [] op[1] = "usetsize"  -> SetU(st, a, [U(st, a) EXCEPT ![4] = b])
    [] op[1] = "udestroy"  -> SetU(st, a, <<>>)
    [] op[1] = "ugenerate" -> Res(st, LET v == U(st, a) IN IF Matches(v[1], v[2]) /\ IsSize(v[3], v[4]) THEN PSize(v[2]) * v[4] ELSE -1)
    [] op[1] = "prune"     -> LET v == U(st, b) IN
                              IF v[2] = -1 THEN Res(st, -1)
                              ELSE SetP(st, a, <<v[1], v[2], RegionsOf(PruneName[c + 1], PSize(v[2]), v[3], v[4])>>)

---------------------------------------------------------------------------
(* which operations make sense in a state (what a caller may do)             *)
Live(st, a) == P(st, a) # <<>>
ULive(st, a) == U(st, a) # <<>>
SameType(i, j) == i >= 0 /\ PScheme(i) = PScheme(j)
Wellformed(r) == Len(r) = 1 /\ r[1][1] = 0
Tiled(r) == Len(r) >= 1 /\ r[1][1] = 0 /\ \A k \in 2..Len(r) : r[k][1] = r[k - 1][2] /\ r[k][3] = r[1][3]
Enabled(st, op) ==
  LET a == op[2]  b == op[3]  c == op[4] IN
  CASE op[1] \in {"new", "unew"} -> TRUE
    [] op[1] \in {"copy", "byval"} -> Live(st, b) /\ (a # b)
    [] op[1] = "assign"    -> Live(st, a) /\ Live(st, b)
    [] op[1] = "massign"   -> Live(st, a) /\ Live(st, b)
    [] op[1] \in {"setscheme", "setparams", "clear", "destroy"} -> Live(st, a)
    [] op[1] = "poke"      -> Live(st, a) /\ SameType(P(st, a)[2], b)
    [] op[1] = "addregion" -> Live(st, a) /\ Len(P(st, a)[3]) < 9
    [] op[1] \in {"setregion", "delregion"} -> Live(st, a) /\ P(st, a)[3] # <<>>
    [] op[1] = "generate"  -> Live(st, a) /\ (IF Matches(P(st, a)[1], P(st, a)[2])
                                 THEN Tiled(P(st, a)[3]) /\ P(st, a)[3][Len(P(st, a)[3])][1] < PSize(P(st, a)[2]) /\ P(st, a)[3][Len(P(st, a)[3])][2] <= PSize(P(st, a)[2])
                                 ELSE TRUE)
    [] op[1] = "ucopy"     -> ULive(st, b) /\ a # b
    [] op[1] \in {"usetparams", "usetscheme", "usetsize", "udestroy", "ugenerate"} -> ULive(st, a)
    [] op[1] = "upoke"     -> ULive(st, a) /\ SameType(U(st, a)[2], b)
    [] op[1] = "prune"     -> ULive(st, b) /\ (U(st, b)[2] = -1 \/ (Matches(U(st, b)[1], U(st, b)[2]) /\ IsSize(U(st, b)[3], U(st, b)[4])))
=============================================================================
