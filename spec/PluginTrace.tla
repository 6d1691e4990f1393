---------------------------- MODULE PluginTrace ----------------------------
EXTENDS Plugin, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)
VARIABLE job
vars == <<job, q, grid>>
E == Log[job]
Init == job \in 1..Len(Log) /\ q = Log[job].q /\ grid = <<>>
Next == MapNode /\ UNCHANGED job
Spec == Init /\ [][Next]_vars
\* the sizes the code asked the user rule for
AsksOnce == \A i \in 1..Len(E.asked) : E.asked[i] = Asked
\* every way of building the grid gives the model's nodes so far
Follows == \A r \in 1..Len(E.radial) : Len(E.radial[r]) >= Len(grid) /\ \A i \in 1..Len(grid) : E.radial[r][i] = grid[i]
Whole == Complete => /\ Len(E.radial) = 7 /\ \A r \in 1..Len(E.radial) : Len(E.radial[r]) = q.n
Composite == Complete => /\ E.sphere = Spherical /\ E.clone = Spherical /\ E.pruned = PrunedGrid /\ E.comb = Comb
\* parameters of another type, or compared across types
Typed == E.foreign = "bad_cast" /\ E.same /\ ~E.other /\ ~E.cross
\* batching only reorders
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Batched == Complete => Bag(E.batch) = Bag(Spherical)
Alias == [q |-> q, grid |-> grid, code |-> E]
=============================================================================
