----------------------------- MODULE NamesTrace -----------------------------
(* What the code resolved the strings to; the last record lists the schemes   *)
(* derived from grid types.                                                 *)
EXTENDS Names, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)
VARIABLE k
Init == k \in 1..Len(Log)
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
Resolves == k < Len(Log) => Log[k].r = Radial(Log[k].s) /\ Log[k].a = Angular(Log[k].s)
Types == k = Len(Log) => /\ Len(Log[k].types) = 20
                         /\ \A i \in 1..Len(Log[k].types) : Log[k].types[i][1] = Log[k].types[i][2]
Alias == [record |-> Log[k], radial |-> IF k < Len(Log) THEN Radial(Log[k].s) ELSE "", angular |-> IF k < Len(Log) THEN Angular(Log[k].s) ELSE ""]
=============================================================================
