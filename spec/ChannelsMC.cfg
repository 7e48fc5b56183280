SPECIFICATION Spec
CONSTANT Small = TRUE
INVARIANTS Exact Respect Drawn Unordered
CHECK_DEADLOCK FALSE
