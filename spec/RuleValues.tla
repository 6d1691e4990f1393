----------------------------- MODULE RuleValues -----------------------------
(***************************************************************************)
(* P32.  Quadrature rules are independent values.                           *)
(*                                                                         *)
(* Two slots hold rules of a type, two hold its generic Quadrature<> part,    *)
(* one holds a vector of rules, and two hold parts (sub-ranges) taken from a   *)
(* rule or a generic part as it was at the time.  A value is <<points, weights>>; fresh is the  *)
(* content the construction of the rule gives (whatever it is, always the     *)
(* same).  No two slots ever share storage.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nothing == <<>>
Empty == [d |-> <<<<>>, <<>>>>, b |-> <<<<>>, <<>>>>, v |-> <<>>, s |-> <<<<>>, <<>>>>]
D(st, a) == st.d[a + 1]
B(st, a) == st.b[a + 1]
P(st, a) == st.s[a + 1]
SetD(st, a, x) == [st EXCEPT !.d[a + 1] = x]
SetB(st, a, x) == [st EXCEPT !.b[a + 1] = x]
SetP(st, a, x) == [st EXCEPT !.s[a + 1] = x]
\* part number c of a rule: c numbers the sub-ranges (some several times)
Part(x, c) == LET n == Len(x[1])  lo == c % n  hi == lo + 1 + ((c \div n) % (n - lo))
              IN <<SubSeq(x[1], lo + 1, hi), SubSeq(x[2], lo + 1, hi)>>
\* writing point number i (the driver reduces i modulo the size); val is the id of what is written
At(s, i) == (i % Len(s)) + 1
WP(x, i, val) == <<[x[1] EXCEPT ![At(x[1], i)] = val], x[2]>>
WW(x, i, val) == <<x[1], [x[2] EXCEPT ![At(x[2], i)] = val]>>
Enabled(st, op) ==
  LET a == op[2]  b == op[3] IN
  CASE op[1] = "mk" -> TRUE
    [] op[1] \in {"copy", "move"} -> a # b /\ D(st, b) # Nothing
    [] op[1] \in {"slice", "mslice"} -> D(st, b) # Nothing
    [] op[1] \in {"bcopy", "bmove"} -> a # b /\ B(st, b) # Nothing
    [] op[1] = "bmk" -> TRUE
    [] op[1] \in {"push", "mpush"} -> D(st, a) # Nothing /\ Len(st.v) < 5
    [] op[1] = "pop" -> st.v # <<>>
    [] op[1] = "grow" -> st.v # <<>>
    [] op[1] = "vcopy" -> st.v # <<>>
    [] op[1] = "get" -> b < Len(st.v)
    [] op[1] \in {"dwp", "dww", "dwpd", "dwwd"} -> D(st, a) # Nothing
    [] op[1] \in {"bwp", "bww", "bwpd", "bwwd"} -> B(st, a) # Nothing
    [] op[1] \in {"vwp", "vww"} -> a < Len(st.v)
    [] op[1] = "ddel" -> D(st, a) # Nothing
    [] op[1] = "bdel" -> B(st, a) # Nothing
    [] op[1] = "sd" -> D(st, b) # Nothing
    [] op[1] = "sb" -> B(st, b) # Nothing
    [] op[1] = "scopy" -> a # b /\ P(st, b) # Nothing
    [] op[1] \in {"swp", "sww", "sdel"} -> P(st, a) # Nothing
Do(st, op, fresh, valp, valw) ==
  LET a == op[2]  b == op[3] IN
  CASE op[1] = "mk" -> SetD(st, a, fresh)
    [] op[1] = "bmk" -> SetB(st, a, fresh)
    [] op[1] = "copy" -> SetD(st, a, D(st, b))
    [] op[1] = "move" -> SetD(SetD(st, b, Nothing), a, D(st, b))
    [] op[1] = "slice" -> SetB(st, a, D(st, b))
    [] op[1] = "mslice" -> SetB(SetD(st, b, Nothing), a, D(st, b))
    [] op[1] = "bcopy" -> SetB(st, a, B(st, b))
    [] op[1] = "bmove" -> SetB(SetB(st, b, Nothing), a, B(st, b))
    [] op[1] = "push" -> [st EXCEPT !.v = Append(@, D(st, a))]
    [] op[1] = "mpush" -> [SetD(st, a, Nothing) EXCEPT !.v = Append(@, D(st, a))]
    [] op[1] = "pop" -> [st EXCEPT !.v = SubSeq(@, 1, Len(@) - 1)]
    [] op[1] \in {"grow", "vcopy"} -> st
    [] op[1] = "get" -> SetD(st, a, st.v[b + 1])
    [] op[1] \in {"dwp", "dwpd"} -> SetD(st, a, WP(D(st, a), b, valp))
    [] op[1] \in {"dww", "dwwd"} -> SetD(st, a, WW(D(st, a), b, valw))
    [] op[1] \in {"bwp", "bwpd"} -> SetB(st, a, WP(B(st, a), b, valp))
    [] op[1] \in {"bww", "bwwd"} -> SetB(st, a, WW(B(st, a), b, valw))
    [] op[1] = "vwp" -> [st EXCEPT !.v[a + 1] = WP(@, b, valp)]
    [] op[1] = "vww" -> [st EXCEPT !.v[a + 1] = WW(@, b, valw)]
    [] op[1] = "ddel" -> SetD(st, a, Nothing)
    [] op[1] = "bdel" -> SetB(st, a, Nothing)
    [] op[1] = "sd" -> SetP(st, a, Part(D(st, b), op[4]))
    [] op[1] = "sb" -> SetP(st, a, Part(B(st, b), op[4]))
    [] op[1] = "scopy" -> SetP(st, a, P(st, b))
    [] op[1] = "sdel" -> SetP(st, a, Nothing)
    [] op[1] = "swp" -> SetP(st, a, WP(P(st, a), b, valp))
    [] op[1] = "sww" -> SetP(st, a, WW(P(st, a), b, valw))
=============================================================================
