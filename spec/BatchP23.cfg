SPECIFICATION Spec
INVARIANTS Tight Apart
ALIAS Alias
CHECK_DEADLOCK FALSE
