SPECIFICATION Spec
CONSTANTS
 NP = 2
 Results = {"a", "b"}
 Pics = {"v"}
 Crashes = 0
 Gen = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
