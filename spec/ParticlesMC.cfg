SPECIFICATION Spec
CONSTANTS
 Cap = 3
 MaxId = 4
 MaxPid = 1
INVARIANTS Content NoLoss NumbersUnique Validity HolesInside
CHECK_DEADLOCK FALSE
