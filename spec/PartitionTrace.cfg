SPECIFICATION Spec
INVARIANTS Indices Walks Grids
ALIAS Alias
CHECK_DEADLOCK FALSE
