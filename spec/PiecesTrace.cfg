SPECIFICATION PSpec
CONSTANT What = "history"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
