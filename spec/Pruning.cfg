SPECIFICATION Spec
INVARIANTS Tiles Catalogued Regions Generated
ALIAS Alias
CHECK_DEADLOCK FALSE
