----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* P19, P20 (and P23, P24 over histories).  Objects and who shares what.      *)
(*                                                                         *)
(* The heap is a sequence of cells, each a grid: its centre and its points     *)
(* <<x, y, z, w>> in order.  Two slots hold grid values, two hold shared       *)
(* handles, three hold batchers <<cell, maximum, boundaries>>; a value slot is *)
(* the only reference to its cell, handles and batchers may share.  All       *)
(* coordinates are integers, so that recentring is exact.                     *)
(*                                                                         *)
(* Do(st, op, ob) is the next state; ob is the order and the boundaries that    *)
(* a batching chose, which the machine leaves open.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Batching, Products, TLC

A1 == <<<<1, 0, 0, 1>>, <<0, 1, 0, 2>>, <<0, 0, -1, 3>>>>
A2 == <<<<2, 1, 0, 5>>, <<-1, -1, 1, 7>>>>
A3 == <<<<1, 1, 1, 2>>, <<1, 1, 1, 2>>, <<1, 1, 1, 3>>>>
\* a template is a sequence of regions <<radial slice, angular rule>>
Templates == << <<<<<<<<1, 1>>, <<2, 3>>>>, A1>>>>,
                << <<<<<<1, 2>>>>, A1>>, <<<<<<2, 1>>, <<3, 1>>>>, A2>> >>,
                <<<<<<<<2, 1>>>>, <<<<1, -2, 3, 4>>>>>>>>,
                << <<<<<<1, 2>>, <<4, 1>>>>, A3>> >>,
                << <<<<<<1, 1>>>>, A3>>, <<<<<<3, 2>>>>, A2>>, <<<<<<5, 1>>>>, A1>> >> >>
Centre == <<<<0, 0, 0>>, <<3, 0, 0>>, <<3, -5, 0>>, <<3, -5, 7>>, <<-100, 2, 7>>, <<0, 0, 7>>>>
RECURSIVE Build(_, _, _)
Build(t, c, k) == IF k > Len(Templates[t]) THEN <<>> ELSE Sphere(Templates[t][k][1], Templates[t][k][2], c) \o Build(t, c, k + 1)
Fresh(t, ci) == [c |-> Centre[ci + 1], p |-> Build(t + 1, Centre[ci + 1], 1)]

Empty == [cells |-> <<>>, g |-> <<0, 0>>, s |-> <<0, 0>>, b |-> <<<<>>, <<>>, <<>>>>]
Cell(st, i) == st.cells[i]
G(st, a) == st.g[a + 1]
S(st, a) == st.s[a + 1]
B(st, a) == st.b[a + 1]
New(st, cell) == [st EXCEPT !.cells = Append(@, cell)]
Top(st) == Len(st.cells) + 1                       \* the index New will use
SetG(st, a, i) == [st EXCEPT !.g[a + 1] = i]
SetS(st, a, i) == [st EXCEPT !.s[a + 1] = i]
SetB(st, a, v) == [st EXCEPT !.b[a + 1] = v]
SetCell(st, i, v) == [st EXCEPT !.cells[i] = v]
Moved(cell, ci) == LET to == Centre[ci + 1] IN
   [c |-> to, p |-> [i \in 1..Len(cell.p) |-> <<cell.p[i][1] + (to[1] - cell.c[1]), cell.p[i][2] + (to[2] - cell.c[2]), cell.p[i][3] + (to[3] - cell.c[3]), cell.p[i][4]>>]]
Written(cell, i, v) == [cell EXCEPT !.p[(i % Len(cell.p)) + 1] = <<v, v + 1, -v, 10 * v>>]
Bounds(k, m) == IF k = 0 THEN <<0, m>> ELSE IF k = 1 /\ m > 1 THEN <<0, 1, m>> ELSE IF k = 2 /\ m > 2 THEN <<0, m - 1, m>>
                ELSE [i \in 1..(m + 1) |-> i - 1]
Auto == {"batchg", "batchgm", "batchgl", "batchs"}
Source(st, op) == IF op[1] \in {"batchs", "expls"} THEN S(st, op[3]) ELSE G(st, op[3])
Ordered(cell, ob) == [cell EXCEPT !.p = ob.p]

Do(st, op, ob) ==
  LET a == op[2]  b == op[3]  c == op[4]
      own(x) == SetG(New(st, x), a, Top(st))
      shr(x) == SetS(New(st, x), a, Top(st)) IN
  CASE op[1] = "grid"    -> own(Fresh(b, c))
    [] op[1] = "gcopy"   -> own(Cell(st, G(st, b)))
    [] op[1] = "gmove"   -> SetG(SetG(st, b, 0), a, G(st, b))
    [] op[1] \in {"gclone", "share"} -> shr(Cell(st, G(st, b)))
    [] op[1] = "sclone"  -> shr(Cell(st, S(st, b)))
    [] op[1] = "bsclone" -> shr(Cell(st, B(st, b)[1]))
    [] op[1] = "scopy"   -> SetS(st, a, S(st, b))
    \* a batcher of a grid value has a grid of its own
    [] op[1] \in {"batchg", "batchgl"} -> SetB(New(st, Ordered(Cell(st, G(st, b)), ob)), a, <<Top(st), c, ob.idx>>)
    [] op[1] = "batchgm" -> SetG(SetB(New(st, Ordered(Cell(st, G(st, b)), ob)), a, <<Top(st), c, ob.idx>>), b, 0)
    [] op[1] = "explg"   -> SetB(New(st, Cell(st, G(st, b))), a, <<Top(st), 5, Bounds(c, Len(Cell(st, G(st, b)).p))>>)
    [] op[1] = "explgm"  -> SetG(SetB(New(st, Cell(st, G(st, b))), a, <<Top(st), 5, Bounds(c, Len(Cell(st, G(st, b)).p))>>), b, 0)
    \* a batcher of a shared handle, and a copy of a batcher, share the grid
    [] op[1] = "batchs"  -> SetB(SetCell(st, S(st, b), Ordered(Cell(st, S(st, b)), ob)), a, <<S(st, b), c, ob.idx>>)
    [] op[1] = "expls"   -> SetB(st, a, <<S(st, b), 5, Bounds(c, Len(Cell(st, S(st, b)).p))>>)
    [] op[1] = "bcopy"   -> SetB(st, a, B(st, b))
    [] op[1] = "bmove"   -> SetB(SetB(st, b, <<>>), a, B(st, b))
    [] op[1] = "bclone"  -> SetB(New(st, Cell(st, B(st, b)[1])), a, <<Top(st), B(st, b)[2], B(st, b)[3]>>)
    [] op[1] = "grec"    -> SetCell(st, G(st, a), Moved(Cell(st, G(st, a)), b))
    [] op[1] = "srec"    -> SetCell(st, S(st, a), Moved(Cell(st, S(st, a)), b))
    [] op[1] \in {"brec", "bqrec"} -> SetCell(st, B(st, a)[1], Moved(Cell(st, B(st, a)[1]), b))
    [] op[1] = "gwrite"  -> SetCell(st, G(st, a), Written(Cell(st, G(st, a)), b, c))
    [] op[1] = "swrite"  -> SetCell(st, S(st, a), Written(Cell(st, S(st, a)), b, c))
    [] op[1] \in {"bwrite", "bqwrite"} -> SetCell(st, B(st, a)[1], Written(Cell(st, B(st, a)[1]), b, c))
    [] op[1] = "gdel"    -> SetG(st, a, 0)
    [] op[1] = "sdel"    -> SetS(st, a, 0)
    [] op[1] = "bdel"    -> SetB(st, a, <<>>)

Enabled(st, op) ==
  LET a == op[2]  b == op[3] IN
  CASE op[1] = "grid" -> TRUE
    [] op[1] \in {"gcopy", "gmove"} -> G(st, b) # 0 /\ a # b
    [] op[1] \in {"gclone", "share", "batchg", "batchgm", "batchgl", "explg", "explgm"} -> G(st, b) # 0
    [] op[1] \in {"sclone", "batchs", "expls"} -> S(st, b) # 0
    [] op[1] = "scopy" -> S(st, b) # 0 /\ a # b
    [] op[1] = "bsclone" -> B(st, b) # <<>>
    [] op[1] \in {"bcopy", "bmove", "bclone"} -> B(st, b) # <<>> /\ a # b
    [] op[1] \in {"grec", "gwrite", "gdel"} -> G(st, a) # 0
    [] op[1] \in {"srec", "swrite", "sdel"} -> S(st, a) # 0
    [] op[1] \in {"brec", "bqrec", "bwrite", "bqwrite", "bdel"} -> B(st, a) # <<>>

\* what a slot shows
ShowG(st, a) == IF G(st, a) = 0 THEN <<>> ELSE Cell(st, G(st, a))
ShowS(st, a) == IF S(st, a) = 0 THEN <<>> ELSE Cell(st, S(st, a))
ShowB(st, a) == IF B(st, a) = <<>> THEN <<>> ELSE
   LET v == B(st, a)  cell == Cell(st, v[1]) IN
   [cell |-> cell, max |-> v[2], batches |-> [k \in 1..(Len(v[3]) - 1) |-> Slice(cell.p, v[3], k)]]
\* a value slot's cell is nobody else's
Exclusive(st) == \A a \in 0..1 : G(st, a) # 0 =>
   /\ G(st, a) # G(st, 1 - a)
   /\ \A x \in 0..1 : S(st, x) # G(st, a)
   /\ \A x \in 0..2 : B(st, x) # <<>> => B(st, x)[1] # G(st, a)
=============================================================================
