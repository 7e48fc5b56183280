SPECIFICATION Spec
CONSTANTS
 NP = 3
 NC = 2
 N = {"a", "b"}
 Kills = 1
 Damages = 1
 Early = TRUE
 Gen = FALSE
INVARIANTS Right Honest OneWriter Released
