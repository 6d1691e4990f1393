SPECIFICATION Spec
INVARIANTS Followed Prefix Ends Centre ReadBack Generic Tiles Counted
ALIAS Alias
CHECK_DEADLOCK FALSE
