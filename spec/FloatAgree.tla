----------------------------- MODULE FloatAgree -----------------------------
(***************************************************************************)
(* P26.  The single-precision instantiation of an angular grid is the double- *)
(* precision one seen through single-precision eyes: the same size accepted,  *)
(* the same number of points, and each number the rounding of its counterpart *)
(* up to a few units in the last place.  A behaviour reads both grids in step. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Dyadic
Dir == IOEnv.VF_DIR
Index == JsonDeserialize(Dir \o "/index.json")
Ulps == Pow2(-21)
Floor == Pow2(-27)
Chunk == 512
VARIABLES grid, log, pos
vars == <<grid, log, pos>>
N == Len(log.dp)
Init == grid \in 1..Len(Index) /\ log = <<>> /\ pos = 0
Open == log = <<>> /\ log' = JsonDeserialize(Dir \o "/" \o Index[grid].file) /\ UNCHANGED <<grid, pos>>
Read == log # <<>> /\ log.d /\ log.s /\ pos < N /\ pos' = (IF pos + Chunk > N THEN N ELSE pos + Chunk) /\ UNCHANGED <<grid, log>>
Next == Open \/ Read
Spec == Init /\ [][Next]_vars
View == <<grid, log = <<>>, pos>>
Same == log # <<>> => /\ log.d = log.s
                      /\ (log.d /\ log.s) => N = Len(log.sp) /\ Len(log.dw) = Len(log.sw) /\ Len(log.dw) = N
From == ((pos - 1) \div Chunk) * Chunk + 1
Close(x, y) == LET e == Sub(x, y) IN MagCmp(e, Mul(Ulps, x)) <= 0 \/ MagCmp(e, Floor) <= 0
Points == pos > 0 => \A i \in From..pos, a \in 1..3 : Close(log.dp[i][a], log.sp[i][a])
Weights == pos > 0 => \A i \in From..pos : NearRel(log.sw[i], log.dw[i], Ulps)
Alias == [fam |-> Index[grid].fam, n |-> Index[grid].n, pos |-> pos]
=============================================================================
