SPECIFICATION Spec
CONSTANTS
 TEnd = 2
 N0 = 3
 MaxInt = 2
 MaxPool = 3
INVARIANTS Chronological NeverInPast OnceConsumed Conserved NoRepeat Numbers FromLedger
CHECK_DEADLOCK FALSE
