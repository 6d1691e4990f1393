--------------------------- MODULE GenConcurrent ---------------------------
(* Waves of four concurrent requests: every kind against itself, in both      *)
(* variants, and every pair of kinds, two threads each.                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT NKinds
Kinds == 0..NKinds - 1
VARIABLE wave          \* thread -> <<kind, variant>>, filled thread by thread
Init == \E a, b \in Kinds, v \in 0..1 : a <= b /\ wave = << <<a, v>>, <<b, 1 - v>> >>
\* the third and fourth thread repeat the kinds, the fourth in the other variant
Join == Len(wave) < 4 /\ LET w == wave[Len(wave) - 1] IN wave' = Append(wave, IF Len(wave) = 2 THEN w ELSE <<w[1], 1 - w[2]>>)
Next == Join
Spec == Init /\ [][Next]_wave
Emit == Len(wave) = 4 => PrintT("@" \o ToJson(wave))
=============================================================================
