SPECIFICATION Spec
CONSTANTS
  L = {"A", "B"}
  MaxTok = 3
INVARIANTS Trees Conserved
PROPERTIES Local
CHECK_DEADLOCK FALSE
