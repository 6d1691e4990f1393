SPECIFICATION Spec
INVARIANTS WellFormed Transforms WeightSign Increasing
ALIAS Alias
CHECK_DEADLOCK FALSE
