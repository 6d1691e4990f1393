------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* P16.  Strings as sequences of character codes; a name resolves when its    *)
(* upper-case form is in the table.  GenNames walks from the documented names *)
(* by case flips and single edits and prints every string it reaches;         *)
(* NamesTrace asks what the code made of them.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
\* upper-case documented names -> scheme
Table == <<
  <<<<66,69,67,75,69>>, "becke">>,                                                    \* BECKE
  <<<<77,85,82,65,75,78,79,87,76,69,83>>, "mk">>, <<<<77,75>>, "mk">>,                  \* MURAKNOWLES MK
  <<<<77,85,82,82,65,89,72,65,78,68,89,76,65,77,73,78,71>>, "mhl">>, <<<<77,72,76>>, "mhl">>, \* MURRAYHANDYLAMING MHL
  <<<<84,82,69,85,84,76,69,82,65,72,76,82,73,67,72,83>>, "ta">>, <<<<84,65>>, "ta">>,   \* TREUTLERAHLRICHS TA
  <<<<65,72,82,69,78,83,66,69,89,76,75,73,78>>, "AhrensBeylkin">>, <<<<65,66>>, "AhrensBeylkin">>,
  <<<<68,69,76,76,69,89>>, "Delley">>,
  <<<<76,69,66,69,68,69,86,76,65,73,75,79,86>>, "LebedevLaikov">>, <<<<76,69,66,69,68,69,86>>, "LebedevLaikov">>, <<<<76,76>>, "LebedevLaikov">>,
  <<<<87,79,77,69,82,83,76,69,89>>, "Womersley">> >>
RadialSchemes == {"becke", "mk", "mhl", "ta"}
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Flip(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Fold(s) == [i \in 1..Len(s) |-> Up(s[i])]
Hits(s) == {k \in 1..Len(Table) : Table[k][1] = Fold(s)}
Scheme(s) == IF Hits(s) = {} THEN "rejected" ELSE Table[CHOOSE k \in Hits(s) : TRUE][2]
Radial(s)  == IF Scheme(s) \in RadialSchemes THEN Scheme(s) ELSE "rejected"
Angular(s) == IF Scheme(s) \in RadialSchemes THEN "rejected" ELSE Scheme(s)
=============================================================================
