SPECIFICATION Spec
INVARIANTS WellFormed Mapped Interior InteriorSome
ALIAS Alias
CHECK_DEADLOCK FALSE
