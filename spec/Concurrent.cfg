SPECIFICATION Spec
INVARIANT Accepted
ALIAS Alias
CHECK_DEADLOCK FALSE
