SPECIFICATION Spec
CONSTANT L = 2
CONSTANT T = 7
CONSTANT Vmax = 1
INVARIANT Inside
INVARIANT Image
PROPERTY Progress
CHECK_DEADLOCK FALSE
