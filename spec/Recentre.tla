------------------------------ MODULE Recentre ------------------------------
(***************************************************************************)
(* P19 over real grids.  A behaviour replays a recorded recentring history:   *)
(* the model moves every followed point rigidly and exactly with the centre;  *)
(* the code may differ by the rounding of the moves made so far (slack).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Dyadic
Log == JsonDeserialize(IOEnv.VF_LOG)
Unit == Pow2(3 - atoi(IOEnv.VF_BITS))

VARIABLES job, k, c, slack
vars == <<job, k, c, slack>>
St(j) == Log[job].steps[j]
S == St(k)
Off(i, a) == Sub(St(1).p[i][a], St(1).c[a])
Mag(a) == MaxAbs([i \in 1..Len(St(1).p) |-> Off(i, a)])
Init == job \in 1..Len(Log) /\ k = 1 /\ c = Log[job].steps[1].want
        /\ slack = [a \in 1..3 |-> Mul(Unit, Add(Abs(Log[job].steps[1].want[a]), Mag(a)))]
Recentre == /\ k < Len(Log[job].steps) /\ k' = k + 1 /\ UNCHANGED job
            /\ c' = St(k + 1).want
            /\ slack' = [a \in 1..3 |-> Add(slack[a], Mul(Unit, Add(Add(Abs(c[a]), Abs(c'[a])), Mag(a))))]
Next == Recentre
Spec == Init /\ [][Next]_vars

Reports == S.c = c /\ S.bc = c
Rigid == \A i \in 1..Len(S.p), a \in 1..3 : Near(S.p[i][a], Add(c[a], Off(i, a)), slack[a])
\* what recentring does not touch
Untouched == S.hw = St(1).hw /\ S.np = St(1).np /\ S.nw = St(1).nw /\ S.nb = St(1).nb
\* to where it already is: nothing at all
Idle == k > 1 => (S.want = St(k - 1).want => S.hp = St(k - 1).hp)
Alias == [job |-> job, kind |-> Log[job].kind, k |-> k, how |-> [j \in 1..k |-> St(j).how], line |-> Log[job].line,
          reports |-> Reports, rigid |-> Rigid, untouched |-> Untouched, idle |-> Idle]
=============================================================================
