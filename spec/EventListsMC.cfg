SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  NLINES = 3
  NFILES = 2
