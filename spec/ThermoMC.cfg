SPECIFICATION Spec
CONSTANTS
  N = 3
  K = 1
  F = {0, 2500, 9999}
INVARIANTS Conserved Bounded
CHECK_DEADLOCK FALSE
