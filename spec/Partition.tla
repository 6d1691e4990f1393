----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* P29.  Radial grid partitions as values.                                  *)
(*                                                                         *)
(* A slot holds a partition: open (regions may still be added) or done        *)
(* (finalized), for a radial rule of n points; idx are the region starts      *)
(* (followed by n when done), q the region rules.  A hollow slot was moved     *)
(* from: it may only be assigned to or destroyed.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
NSlots == 3
Rules == << <<<<1, 0, 0, 7>>>>,
            <<<<0, 2, 0, 5>>, <<0, 0, -3, 4>>>>,
            <<<<1, 1, 1, 1>>, <<1, 1, 1, 1>>, <<-1, 4, 2, 3>>>>,
            <<<<9, 8, 7, 6>>, <<-2, -2, 0, 11>>, <<3, 3, 3, 2>>, <<0, 0, 5, 1>>>> >>
None == <<"none", 0, <<>>, <<>>>>
Hollow == <<"hollow", 0, <<>>, <<>>>>
Empty == [i \in 1..NSlots |-> None]
Slot(st, a) == st[a + 1]
Kind(v) == v[1]
N(v) == v[2]
Idx(v) == v[3]
Q(v) == v[4]
Put(st, a, v) == [st EXCEPT ![a + 1] = v]
Close(v) == <<"done", N(v), IF Idx(v)[Len(Idx(v))] # N(v) THEN Append(Idx(v), N(v)) ELSE Idx(v), Q(v)>>
Added(v, gap, r) == <<Kind(v), N(v), Append(Idx(v), IF Idx(v) = <<>> THEN 0 ELSE Idx(v)[Len(Idx(v))] + 1 + gap), Append(Q(v), r)>>
\* starts of a variadic construction: 0 and the cuts of a mask
RECURSIVE Cuts(_, _, _)
Cuts(mask, n, i) == IF i >= n THEN <<>> ELSE (IF (mask \div (2 ^ (i - 1))) % 2 = 1 THEN <<i>> ELSE <<>>) \o Cuts(mask, n, i + 1)
Starts(mask, n) == <<0>> \o Cuts(mask, n, 1)
Built(n, mask, r) == LET s == Starts(mask, n) IN <<"done", n, Append(s, n), [i \in 1..Len(s) |-> ((r + i - 1) % Len(Rules)) + 1]>>
Moved(v, k, to) == <<Kind(v), N(v), [Idx(v) EXCEPT ![k + 1] = to], Q(v)>>

\* <<name, a, b, c, d>>
Enabled(st, op) ==
  LET a == Slot(st, op[2])  b == Slot(st, op[3]) IN
  CASE op[1] = "new" -> TRUE
    [] op[1] = "ctor" -> Len(Starts(op[4], op[3])) <= 4
    [] op[1] = "add" -> Kind(a) = "open" /\ (IF Idx(a) = <<>> THEN op[3] = 0 ELSE Idx(a)[Len(Idx(a))] + 1 + op[3] < N(a))
    [] op[1] = "fin" -> Kind(a) = "done" \/ (Kind(a) = "open" /\ Q(a) # <<>>)
    [] op[1] = "copy" -> op[2] # op[3] /\ Kind(b) \in {"open", "done"}
    [] op[1] = "move" -> op[2] # op[3] /\ Kind(b) \in {"open", "done"}
    [] op[1] = "assign" -> Kind(a) # "none" /\ Kind(b) \in {"open", "done"}
    [] op[1] = "massign" -> op[2] # op[3] /\ Kind(a) # "none" /\ Kind(b) \in {"open", "done"}
    [] op[1] = "cut" -> IF Kind(a) = "done" /\ op[3] \in 1..(Len(Q(a)) - 1) THEN Idx(a)[op[3]] < op[4] /\ op[4] < Idx(a)[op[3] + 2] ELSE FALSE
    [] op[1] = "del" -> Kind(a) # "none"
Do(st, op) ==
  LET a == Slot(st, op[2])  b == Slot(st, op[3]) IN
  CASE op[1] = "new" -> Put(st, op[2], <<"open", op[3], <<>>, <<>>>>)
    [] op[1] = "ctor" -> Put(st, op[2], Built(op[3], op[4], op[5]))
    [] op[1] = "add" -> Put(st, op[2], Added(a, op[3], op[4]))
    [] op[1] = "fin" -> Put(st, op[2], Close(a))
    [] op[1] \in {"copy", "assign"} -> Put(st, op[2], b)
    [] op[1] \in {"move", "massign"} -> Put(Put(st, op[3], Hollow), op[2], b)
    [] op[1] = "cut" -> Put(st, op[2], Moved(a, op[3], op[4]))
    [] op[1] = "del" -> Put(st, op[2], None)

\* the regions of a finished partition, in order, and the grid they stand for
Regions(v) == [k \in 1..Len(Q(v)) |-> <<Idx(v)[k], Idx(v)[k + 1], Rules[Q(v)[k]]>>]
\* design: a finished partition tiles the radial range
Tiles(v) == Kind(v) = "done" =>
  /\ Len(Idx(v)) = Len(Q(v)) + 1 /\ Idx(v)[1] = 0 /\ Idx(v)[Len(Idx(v))] = N(v)
  /\ \A k \in 1..Len(Q(v)) : Idx(v)[k] < Idx(v)[k + 1]
=============================================================================
