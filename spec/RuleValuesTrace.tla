--------------------------- MODULE RuleValuesTrace ---------------------------
EXTENDS RuleValues, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)     \* a sequence of [kind, fresh, valp, valw, steps]
VARIABLES prog, k, st
vars == <<prog, k, st>>
L == Log[prog]
E == L.steps[k]
Init == prog \in 1..Len(Log) /\ k = 0 /\ st = Empty
Next == LET n == L.steps[k + 1] IN
  k < Len(L.steps) /\ k' = k + 1 /\ UNCHANGED prog
  /\ st' = Do(st, n.o, L.fresh, IF n.o[4] \in 1..6 THEN L.valp[n.o[4]] ELSE 0, IF n.o[4] \in 1..6 THEN L.valw[n.o[4]] ELSE 0)
Spec == Init /\ [][Next]_vars
Shows(e, v) == IF v = <<>> THEN e = <<>> ELSE e = <<v[1], v[2], Len(v[1])>>
Derived == k > 0 => \A a \in 1..2 : Shows(E.d[a], st.d[a])
Generic == k > 0 => \A a \in 1..2 : Shows(E.b[a], st.b[a])
Parts == k > 0 => \A a \in 1..2 : Shows(E.s[a], st.s[a])
Vector  == k > 0 => Len(E.v) = Len(st.v) /\ \A i \in 1..Len(st.v) : Shows(E.v[i], st.v[i])
Alias == [prog |-> prog, kind |-> L.kind, k |-> k, op |-> IF k > 0 THEN E.o ELSE <<>>, model |-> st, code |-> IF k > 0 THEN [d |-> E.d, b |-> E.b, v |-> E.v, s |-> E.s] ELSE <<>>]
=============================================================================
