SPECIFICATION Spec
CONSTANTS TAU2 = 4 TPAST = 3 TMAX = 6 ZMAX = 8 MAXSTEP = 9
INVARIANTS Once OnTheWay Missed NeverCut
PROPERTY Monotone
CHECK_DEADLOCK FALSE
