SPECIFICATION Spec
INVARIANTS Counted Centre Listed
ALIAS Alias
CHECK_DEADLOCK FALSE
