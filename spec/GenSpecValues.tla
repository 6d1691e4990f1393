--------------------------- MODULE GenSpecValues ---------------------------
(* Random programs over specifications (simulation): the history is printed    *)
(* when it reaches the given length.                                          *)
EXTENDS SpecValues, Json
CONSTANT Length
VARIABLES st, hist
vars == <<st, hist>>
Slots == 0..2
USlots == 0..1
Ps == 0..(NP - 1)
Ops == [k \in {"new"} |-> {<<"new", a, b, c, d>> : a \in Slots, b \in 0..3, c \in -1..(NP - 1), d \in 0..7}]["new"]
  \cup {<<n, a, b, 0, 0>> : n \in {"copy", "assign", "byval", "massign"}, a \in Slots, b \in Slots}
  \cup {<<"setscheme", a, b, 0, 0>> : a \in Slots, b \in 0..3}
  \cup {<<"setparams", a, b, 0, 0>> : a \in Slots, b \in -1..(NP - 1)}
  \cup {<<"poke", a, b, 0, 0>> : a \in Slots, b \in Ps}
  \cup {<<"addregion", a, b, c, 0>> : a \in Slots, b \in 0..7, c \in 0..2}
  \cup {<<"setregion", a, b, c, 0>> : a \in Slots, b \in 0..7, c \in 0..12}
  \cup {<<"delregion", a, b, 0, 0>> : a \in Slots, b \in 0..12}
  \cup {<<n, a, 0, 0, 0>> : n \in {"clear", "destroy", "generate"}, a \in Slots}
  \cup {<<"unew", a, b, c, d>> : a \in USlots, b \in 0..3, c \in Ps, d \in 0..1}
  \cup {<<"ucopy", a, b, 0, 0>> : a \in USlots, b \in USlots}
  \cup {<<"usetparams", a, b, 0, 0>> : a \in USlots, b \in -1..(NP - 1)}
  \cup {<<"upoke", a, b, 0, 0>> : a \in USlots, b \in Ps}
  \cup {<<"usetscheme", a, b, 0, 0>> : a \in USlots, b \in 0..3}
  \cup {<<"usetsize", a, b, 0, 0>> : a \in USlots, b \in {14, 15, 26}}
  \cup {<<n, a, 0, 0, 0>> : n \in {"udestroy", "ugenerate"}, a \in USlots}
  \cup {<<"prune", a, b, c, 0>> : a \in Slots, b \in USlots, c \in 0..2}
Names == {"new", "copy", "assign", "byval", "massign", "setscheme", "setparams", "poke", "addregion", "setregion", "delregion", "clear", "destroy",
  "generate", "unew", "ucopy", "usetparams", "upoke", "usetscheme", "usetsize", "udestroy", "ugenerate", "prune"}
ByName == [k \in Names |-> {o \in Ops : o[1] = k}]
Init == st = Empty /\ hist = <<>>
\* every kind of operation is equally likely; matched parameters are preferred on construction
Good(o) == o[1] \notin {"new", "unew"} \/ o[4] = -1 \/ PScheme(o[4]) = o[3] \/ (o[3] = 0 /\ o[5] = 0)
Able(k) == {o \in ByName[k] : Enabled(st, o) /\ Good(o)}
Next == /\ Len(hist) < Length
        /\ \E k \in {RandomElement({n \in Names : Able(n) # {}})} : \E o \in {RandomElement(Able(k))} :
             st' = Do(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Length => PrintT("@" \o ToJson(hist))
\* design: an operation changes no slot but its own
Frame == [][\A i \in Slots : (hist'[Len(hist')][2] # i \/ SubSeq(hist'[Len(hist')][1], 1, 1) = "u") => st'.p[i + 1] = st.p[i + 1]]_vars
=============================================================================
