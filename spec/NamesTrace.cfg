SPECIFICATION Spec
INVARIANTS Resolves Types
ALIAS Alias
CHECK_DEADLOCK FALSE
