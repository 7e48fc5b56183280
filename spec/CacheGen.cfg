SPECIFICATION Spec
CONSTANTS
 NP = 2
 NC = 2
 N = {"a", "b"}
 Kills = 0
 Damages = 0
 Early = FALSE
 Gen = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
