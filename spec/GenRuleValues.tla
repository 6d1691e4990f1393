---------------------------- MODULE GenRuleValues ----------------------------
EXTENDS RuleValues, Json
CONSTANT Length
VARIABLES st, hist
vars == <<st, hist>>
S == 0..1
Fresh == <<<<101, 102, 103>>, <<104, 105, 106>>>>
Ops == {<<n, a, 0, 0>> : n \in {"mk", "bmk", "push", "mpush", "ddel", "bdel"}, a \in S}
  \cup {<<n, a, b, 0>> : n \in {"copy", "move", "slice", "mslice", "bcopy", "bmove"}, a \in S, b \in S}
  \cup {<<n, 0, 0, 0>> : n \in {"pop", "grow", "vcopy"}}
  \cup {<<"get", a, i, 0>> : a \in S, i \in 0..4}
  \cup {<<n, a, i, v>> : n \in {"dwp", "dww", "dwpd", "dwwd", "bwp", "bww", "bwpd", "bwwd"}, a \in S, i \in 0..12, v \in 1..6}
  \cup {<<n, a, i, v>> : n \in {"vwp", "vww"}, a \in 0..4, i \in 0..12, v \in 1..6}
  \cup {<<n, a, b, v>> : n \in {"sd", "sb"}, a \in S, b \in S, v \in {0, 1, 2, 4, 5, 7, 8, 9, 11, 14, 19, 23, 47, 80}}
  \cup {<<"scopy", a, b, 0>> : a \in S, b \in S} \cup {<<"sdel", a, 0, 0>> : a \in S}
  \cup {<<n, a, i, v>> : n \in {"swp", "sww"}, a \in S, i \in 0..6, v \in 1..6}
Names == {o[1] : o \in Ops}
ByName == [k \in Names |-> {o \in Ops : o[1] = k}]
Able(k) == {o \in ByName[k] : Enabled(st, o)}
Rare == {"ddel", "bdel", "sdel", "pop", "move", "mslice", "mpush", "mk", "bmk"}
Kinds == LET K == {n \in Names : Able(n) # {}} IN IF RandomElement(1..3) = 1 \/ K \subseteq Rare THEN K ELSE K \ Rare
Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < Length
        /\ \E k \in {RandomElement(Kinds)} : \E o \in {RandomElement(Able(k))} : st' = Do(st, o, Fresh, o[4], o[4]) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Length => PrintT("@" \o ToJson(hist))
O == hist'[Len(hist')]
\* design: only the named slots change
Frame == [][/\ \A a \in S : D(st', a) # D(st, a) => (O[2] = a /\ O[1] \in {"mk", "copy", "move", "mpush", "get", "dwp", "dww", "dwpd", "dwwd", "ddel"}) \/ (O[3] = a /\ O[1] \in {"move", "mslice"})
            /\ \A a \in S : B(st', a) # B(st, a) => (O[2] = a /\ O[1] \in {"bmk", "slice", "mslice", "bcopy", "bmove", "bwp", "bww", "bwpd", "bwwd", "bdel"}) \/ (O[3] = a /\ O[1] = "bmove")
            /\ \A a \in S : P(st', a) # P(st, a) => O[2] = a /\ O[1] \in {"sd", "sb", "scopy", "sdel", "swp", "sww"}]_vars
=============================================================================
