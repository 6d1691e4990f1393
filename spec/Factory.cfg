SPECIFICATION Spec
INVARIANTS Rejected Delivered
ALIAS Alias
CHECK_DEADLOCK FALSE
