SPECIFICATION Spec
CONSTANTS Tmax = 3
Calls = 2
N = 1
EARLY = FALSE
INVARIANTS Exact Ascending Written SameSteps Reached Count
PROPERTY Ends
CHECK_DEADLOCK FALSE
