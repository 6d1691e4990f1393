---------------------------- MODULE GenLifecycle ----------------------------
(* Random programs (simulation).  Batchings keep the order here and cut into   *)
(* single points; the real ones are supplied by the trace.                    *)
EXTENDS Lifecycle, Json
CONSTANT Length
VARIABLES st, hist
vars == <<st, hist>>
NG == 0..1
NS == 0..1
NB == 0..2
Cs == 0..5
Vs == 1..6
Ops == {<<"grid", a, t, c>> : a \in NG, t \in 0..4, c \in Cs}
  \cup {<<n, a, b, 0>> : n \in {"gcopy", "gmove"}, a \in NG, b \in NG}
  \cup {<<n, a, b, 0>> : n \in {"gclone", "share"}, a \in NS, b \in NG}
  \cup {<<n, a, b, 0>> : n \in {"sclone", "scopy"}, a \in NS, b \in NS}
  \cup {<<"bsclone", a, b, 0>> : a \in NS, b \in NB}
  \cup {<<n, a, b, m>> : n \in {"batchg", "batchgm", "batchgl"}, a \in NB, b \in NG, m \in {0, 1, 2, 3, 8}}
  \cup {<<"batchs", a, b, m>> : a \in NB, b \in NS, m \in {0, 1, 2, 3, 8}}
  \cup {<<n, a, b, k>> : n \in {"explg", "explgm"}, a \in NB, b \in NG, k \in 0..3}
  \cup {<<"expls", a, b, k>> : a \in NB, b \in NS, k \in 0..3}
  \cup {<<n, a, b, 0>> : n \in {"bcopy", "bmove", "bclone"}, a \in NB, b \in NB}
  \cup {<<"grec", a, c, 0>> : a \in NG, c \in Cs} \cup {<<"srec", a, c, 0>> : a \in NS, c \in Cs}
  \cup {<<n, a, c, 0>> : n \in {"brec", "bqrec"}, a \in NB, c \in Cs}
  \cup {<<"gwrite", a, i, v>> : a \in NG, i \in 0..8, v \in Vs} \cup {<<"swrite", a, i, v>> : a \in NS, i \in 0..8, v \in Vs}
  \cup {<<n, a, i, v>> : n \in {"bwrite", "bqwrite"}, a \in NB, i \in 0..8, v \in Vs}
  \cup {<<"gdel", a, 0, 0>> : a \in NG} \cup {<<"sdel", a, 0, 0>> : a \in NS} \cup {<<"bdel", a, 0, 0>> : a \in NB}
Names == {o[1] : o \in Ops}
ByName == [k \in Names |-> {o \in Ops : o[1] = k}]
Dels == {"gdel", "sdel", "bdel"}
Init == st = Empty /\ hist = <<>>
Able(k) == {o \in ByName[k] : Enabled(st, o)}
Obs(o) == IF o[1] \in Auto THEN LET p == Cell(st, Source(st, o)).p IN [p |-> p, idx |-> [i \in 1..(Len(p) + 1) |-> i - 1]] ELSE [p |-> <<>>, idx |-> <<>>]
\* deletions only now and then
Kinds == LET K == {n \in Names : Able(n) # {}} IN IF RandomElement(1..4) = 1 \/ K \subseteq Dels THEN K ELSE K \ Dels
Next == /\ Len(hist) < Length
        /\ \E k \in {RandomElement(Kinds)} : \E o \in {RandomElement(Able(k))} :
             st' = Do(st, o, Obs(o)) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Length => PrintT("@" \o ToJson(hist))
Alone == Exclusive(st)
\* design: only objects on the same cell as the changed one can change
LastOp == hist'[Len(hist')]
Changers == {"grec", "gwrite", "srec", "swrite", "brec", "bqrec", "bwrite", "bqwrite", "batchs"}
Touched == CASE LastOp[1] \in {"grec", "gwrite"} -> G(st, LastOp[2]) [] LastOp[1] \in {"srec", "swrite"} -> S(st, LastOp[2])
             [] LastOp[1] = "batchs" -> S(st, LastOp[3]) [] OTHER -> B(st, LastOp[2])[1]
Frame == [][LastOp[1] \in Changers =>
   /\ \A a \in NG : G(st, a) # Touched => ShowG(st', a) = ShowG(st, a)
   /\ \A a \in NS : S(st, a) # Touched => ShowS(st', a) = ShowS(st, a)
   /\ \A a \in NB : B(st, a) # <<>> /\ B(st, a)[1] # Touched /\ (LastOp[1] # "batchs" \/ LastOp[2] # a) => ShowB(st', a) = ShowB(st, a)]_vars
=============================================================================
