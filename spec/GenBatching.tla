---------------------------- MODULE GenBatching ----------------------------
(***************************************************************************)
(* The batching machine: a point set is cut by axis-aligned planes until     *)
(* every batch is small enough or its points coincide.  TLC checks here that  *)
(* any order of cuts ends in a valid batching, and prints every initial       *)
(* point set with its maximum as a test case.                                *)
(***************************************************************************)
EXTENDS Batching, TLC, Json
CONSTANTS MaxN, MaxB
Place == <<<<-1, 0, -1>>, <<-1, 0, 1>>, <<-1, 1, -1>>, <<-1, 1, 1>>, <<0, 0, -1>>, <<0, 0, 1>>, <<0, 1, -1>>, <<0, 1, 1>>,
           <<2, 0, -1>>, <<2, 0, 1>>, <<2, 1, -1>>, <<2, 1, 1>>>>
RECURSIVE Multisets(_, _)
Multisets(m, lo) == IF m = 0 THEN {<<>>} ELSE UNION {{<<i>> \o t : t \in Multisets(m - 1, i)} : i \in lo..Len(Place)}

VARIABLES input, max, batches
vars == <<input, max, batches>>
Pts(f) == [i \in 1..Len(f) |-> <<Place[f[i]][1], Place[f[i]][2], Place[f[i]][3], i>>]
Init == \E m \in 1..MaxN : \E f \in Multisets(m, 1) : \E b \in 0..MaxB :
          input = Pts(f) /\ max = b /\ batches = <<Pts(f)>>
\* points on the plane may go to either side
Cut(k, axis, at, low) ==
  LET ps == batches[k]
      left  == SelectSeq(ps, LAMBDA p : p[axis] < at \/ (low /\ p[axis] = at))
      right == SelectSeq(ps, LAMBDA p : p[axis] > at \/ (~low /\ p[axis] = at))
  IN /\ left # <<>> /\ right # <<>>
     /\ batches' = SubSeq(batches, 1, k - 1) \o <<left, right>> \o SubSeq(batches, k + 1, Len(batches))
     /\ UNCHANGED <<input, max>>
Next == \E k \in 1..Len(batches) : /\ Len(batches[k]) > max
          /\ \E axis \in 1..3, at \in {-1, 0, 1, 2}, low \in BOOLEAN : Cut(k, axis, at, low)
Spec == Init /\ [][Next]_vars
Order == FlattenSeq(batches)
RECURSIVE Idx(_)
Idx(k) == IF k = 0 THEN <<0>> ELSE LET t == Idx(k - 1) IN Append(t, t[Len(t)] + Len(batches[k]))
Done == ~ENABLED Next
Valid == Done => IsBatching(input, Order, Idx(Len(batches)), max)
Partial == IsBatching(input, Order, Idx(Len(batches)), Len(input))
Emit == batches = <<input>> => PrintT("@" \o ToJson([p |-> input, m |-> max]))
=============================================================================
