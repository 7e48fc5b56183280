SPECIFICATION Spec
CONSTANTS
  N = 2
  C = {2, 4}
  M = 2
INVARIANTS Bijective Tiling OneCell Touched
CHECK_DEADLOCK FALSE
