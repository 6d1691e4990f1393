-------------------------- MODULE SpecValuesTrace --------------------------
(* Recorded programs: after every operation all five specifications, their    *)
(* pairwise equality and the result are what the model says.                 *)
EXTENDS SpecValues, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)
VARIABLES prog, k, st
vars == <<prog, k, st>>
E == Log[prog][k]
Init == prog \in 1..Len(Log) /\ k = 0 /\ st = Empty
Next == k < Len(Log[prog]) /\ k' = k + 1 /\ st' = Do(st, Log[prog][k + 1].o) /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars

Full == [a \in 0..2 |-> P(st, a)]
NonEmpty(r) == SelectSeq(r, LAMBDA x : x[1] # x[2])
Shown(v) == IF v = <<>> THEN <<>> ELSE <<v[1], v[2], NonEmpty(v[3])>>
\* a region list with empty regions means the same as one without
Slots == k > 0 => \A a \in 0..2 : Shown(E.p[a + 1]) = P(st, a)
USlots == k > 0 => \A a \in 0..1 : E.u[a + 1] = U(st, a)
Result == k > 0 => E.res = st.res
\* equality is componentwise (on what the two specifications hold)
Equal == k > 0 => \A i \in 0..2, j \in 0..2 :
   E.eq[i * 3 + j + 1] = IF E.p[i + 1] = <<>> \/ E.p[j + 1] = <<>> THEN -1 ELSE IF E.p[i + 1] = E.p[j + 1] THEN 1 ELSE 0
Alias == [prog |-> prog, k |-> k, did |-> IF k = 0 THEN <<>> ELSE E.o, model |-> st, code |-> IF k = 0 THEN [o |-> <<>>] ELSE E]
=============================================================================
