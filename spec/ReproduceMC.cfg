SPECIFICATION Spec
CONSTANTS
 M = 7
 MaxEv = 2
 MaxRuns = 2
INVARIANT Function
CHECK_DEADLOCK FALSE
