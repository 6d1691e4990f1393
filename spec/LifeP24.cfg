SPECIFICATION Spec
INVARIANTS SameAt
ALIAS Alias
CHECK_DEADLOCK FALSE
