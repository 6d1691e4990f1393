SPECIFICATION Spec
INVARIANTS Derived Generic Parts Vector
ALIAS Alias
CHECK_DEADLOCK FALSE
