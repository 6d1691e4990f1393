---------------------------- MODULE GenTemplates ----------------------------
\* the grids Lifecycle's programs start from, for the driver
EXTENDS Lifecycle, Json
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
Emit == PrintT("@" \o ToJson(Templates))
=============================================================================
