SPECIFICATION Spec
INVARIANTS Tight
ALIAS Alias
CHECK_DEADLOCK FALSE
