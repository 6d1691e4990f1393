---------------------------- MODULE GenPartition ----------------------------
EXTENDS Partition, Json
CONSTANT Length
VARIABLES st, hist
vars == <<st, hist>>
S == 0..(NSlots - 1)
Ops == {<<"new", a, n, 0, 0>> : a \in S, n \in 1..7}
  \cup {<<"ctor", a, x[1], x[2], (x[1] + x[2]) % 4>> : a \in S, x \in {y \in (1..7) \X (0..63) : y[2] < 2 ^ (y[1] - 1) /\ Len(Starts(y[2], y[1])) <= 4}}
  \cup {<<"add", a, g, r, 0>> : a \in S, g \in 0..3, r \in 1..4}
  \cup {<<"fin", a, 0, 0, 0>> : a \in S} \cup {<<"del", a, 0, 0, 0>> : a \in S}
  \cup {<<n, a, b, 0, 0>> : n \in {"copy", "move", "assign", "massign"}, a \in S, b \in S}
  \cup {<<"cut", a, k, v, 0>> : a \in S, k \in 1..4, v \in 1..6}
Names == {o[1] : o \in Ops}
ByName == [k \in Names |-> {o \in Ops : o[1] = k}]
Able(k) == {o \in ByName[k] : Enabled(st, o)}
Kinds == LET K == {n \in Names : Able(n) # {}} IN IF RandomElement(1..4) = 1 \/ K \subseteq {"new", "ctor", "del", "move"} THEN K ELSE K \ {"new", "ctor", "del", "move"}
Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < Length
        /\ \E k \in {RandomElement(Kinds)} : \E o \in {RandomElement(Able(k))} : st' = Do(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Length => PrintT("@" \o ToJson(hist))
Tiling == \A a \in S : Tiles(Slot(st, a))
Touched == {hist'[Len(hist')][2]} \cup (IF hist'[Len(hist')][1] \in {"move", "massign"} THEN {hist'[Len(hist')][3]} ELSE {})
Frame == [][\A a \in S : a \notin Touched => Slot(st', a) = Slot(st, a)]_vars
=============================================================================
