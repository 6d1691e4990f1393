SPECIFICATION Spec
INVARIANTS Size Clone Equality Build Make
ALIAS Alias
CHECK_DEADLOCK FALSE
