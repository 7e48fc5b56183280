SPECIFICATION Spec
CONSTANT Nmax = 3
INVARIANT OnlyOnce
INVARIANT OnlyNeighbours
INVARIANT Complete
CHECK_DEADLOCK FALSE
