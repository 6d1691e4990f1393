SPECIFICATION Spec
INVARIANTS WellFormed UnitNorm NonZero Distinct EqualWeights
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
