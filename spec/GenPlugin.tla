----------------------------- MODULE GenPlugin -----------------------------
EXTENDS Plugin, Json
CONSTANTS MaxN, MaxK, Coef
CoefQuick == {-1, 0, 2}
CoefDeep == {-2, -1, 0, 1, 3}
Centres == {<<0, 0, 0>>, <<2, 0, -3>>}
Init == /\ q \in [incl : BOOLEAN, n : 1..MaxN, k : 1..MaxK, a : Coef, b : Coef, c : {0, 4}, cen : Centres, d : {1, 16}] /\ grid = <<>>
Next == MapNode
Spec == Init /\ [][Next]_gvars
Emit == Complete => PrintT("@" \o ToJson(q))
=============================================================================
