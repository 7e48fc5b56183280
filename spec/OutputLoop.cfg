SPECIFICATION Spec
CONSTANT Tmax = 4
INVARIANTS Ascending Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
