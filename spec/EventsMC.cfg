SPECIFICATION Spec
CONSTANTS
 MaxN = 3
 MaxEns = 3
 MaxCap = 4
INVARIANTS Exact Enough NotTooMany Numbered
CHECK_DEADLOCK FALSE
