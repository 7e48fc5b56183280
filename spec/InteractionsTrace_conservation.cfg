SPECIFICATION Spec
CONSTANT What = "conservation"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
