------------------------------ MODULE GenNames ------------------------------
EXTENDS Names, FiniteSets, Json
CONSTANTS AllFlips,   \* names up to this length get every case pattern
          MaxFlips    \* longer ones up to this many flips from upper, lower and title case
Lower(s) == [i \in 1..Len(s) |-> Flip(s[i])]
Title(s) == [i \in 1..Len(s) |-> IF i = 1 THEN s[i] ELSE Flip(s[i])]
Odd == {0, 32, 10, 45, 48, 65, 69, 76, 95, 122, 195, 223}

VARIABLES text, flips, edited
vars == <<text, flips, edited>>
Init == /\ \E k \in 1..Len(Table) : text \in {Table[k][1], Lower(Table[k][1]), Title(Table[k][1])}
        /\ flips = 0 /\ edited = FALSE
FlipCase(i) == /\ ~edited /\ (Len(text) <= AllFlips \/ flips < MaxFlips)
               /\ text' = [text EXCEPT ![i] = Flip(@)]
               /\ flips' = (IF Len(text) <= AllFlips THEN 0 ELSE flips + 1) /\ UNCHANGED edited
Insert(i, c) == text' = SubSeq(text, 1, i) \o <<c>> \o SubSeq(text, i + 1, Len(text))
Delete(i) == text' = SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text))
Replace(i, c) == text' = [text EXCEPT ![i] = c]
Swap(i) == i < Len(text) /\ text' = [text EXCEPT ![i] = text[i + 1], ![i + 1] = text[i]]
Join(k) == text' = text \o Table[k][1]
Edit == /\ ~edited /\ flips = 0 /\ edited' = TRUE /\ UNCHANGED flips
        /\ \/ \E i \in 0..Len(text), c \in Odd : Insert(i, c)
           \/ \E i \in 1..Len(text) : Delete(i) \/ Swap(i)
           \/ \E i \in 1..Len(text) : \E c \in Odd \cup {Up(text[i]) + 1} : Replace(i, c)
           \/ \E k \in 1..Len(Table) : Join(k)
           \/ text' = <<>> \/ \E i \in 1..Len(text) : text' = SubSeq(text, 1, i)
Next == Edit \/ \E i \in 1..Len(text) : FlipCase(i)
Spec == Init /\ [][Next]_vars
View == text
\* case never matters
CaseBlind == Scheme(text) = Scheme(Fold(text))
Unedited == ~edited => Scheme(text) # "rejected"
OneKind == Radial(text) = "rejected" \/ Angular(text) = "rejected"
Emit == PrintT("@" \o ToJson(text))
=============================================================================
