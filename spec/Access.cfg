SPECIFICATION Spec
INVARIANTS Lengths Views Elements SubRange
ALIAS Alias
CHECK_DEADLOCK FALSE
