SPECIFICATION Spec
INVARIANTS Same
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
