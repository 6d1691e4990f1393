SPECIFICATION Spec
INVARIANTS WellFormed Positive Ascending Flags Built Scales Defaults
ALIAS Alias
CHECK_DEADLOCK FALSE
