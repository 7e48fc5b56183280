SPECIFICATION Spec
CONSTANTS
 NP = 3
 Results = {"a", "b"}
 Pics = {"v"}
 Crashes = 1
 Gen = FALSE
INVARIANTS Complete OneWriter Released Whole Kept RefusedClean
CHECK_DEADLOCK FALSE
