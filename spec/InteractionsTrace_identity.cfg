SPECIFICATION Spec
CONSTANT What = "identity"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
