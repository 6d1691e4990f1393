SPECIFICATION Spec
INVARIANTS Constructs Entire Finished
ALIAS Alias
CHECK_DEADLOCK FALSE
