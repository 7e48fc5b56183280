SPECIFICATION Spec
INVARIANTS InOrder Fair Labelled
CHECK_DEADLOCK FALSE
CONSTANTS
AP = 3
AT = 3
LINES = 7
SAME = TRUE
EVENTS = 30
