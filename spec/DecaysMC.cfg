SPECIFICATION Spec
CONSTANTS STEPS = 2 DT = 2 N = 1
INVARIANTS Causal Heavy NoneLeft Disabled Possible
PROPERTY Ends
CHECK_DEADLOCK FALSE
