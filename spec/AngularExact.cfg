SPECIFICATION Spec
INVARIANTS Present Advertised Exact KnownShows
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
