---------------------------- MODULE GenComposite ----------------------------
(* All constructions over small integer rules; prints one JSON test case per *)
(* complete behaviour.                                                      *)
EXTENDS Composite, Json
CONSTANTS MaxR,     \* largest radial size
          NAng      \* number of different angular rules
\* families of integer rules, different in every entry
RadialRule(m) == [i \in 1..m |-> <<i * i - i + 1, 2 * i + 3 * ((i * i) % 5) + 1>>]
AngularRule(k) ==
  [j \in 1..((k % 3) + 1) |-> <<k + 2 * j, ((7 * k * j) % 11) - 5, 3 - k * j, 10 * k + j>>]
Centres == {<<0, 0, 0>>, <<3, -5, 7>>, <<0, 0, 2>>, <<0, -4, 0>>, <<6, 0, 0>>, <<1, -1, 0>>}

Init == \E m \in 1..MaxR, c \in Centres : Start(RadialRule(m), c)
Next == \E len \in 1..MaxR, k \in 1..NAng : AddRegion(len, AngularRule(k))
Spec == Init /\ [][Next]_gvars
Emit == Complete => PrintT("@" \o ToJson([c |-> cen, regions |-> regions, rad |-> rad]))
=============================================================================
