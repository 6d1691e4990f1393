SPECIFICATION Spec
INVARIANTS Same Points Weights
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
