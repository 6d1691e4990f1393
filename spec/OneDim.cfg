SPECIFICATION Spec
INVARIANTS Constructed ConstructsAll LegendreExact Flags Ordered Symmetric Roots Weights Modified Trapezoid Sums
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
