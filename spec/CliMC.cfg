SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Single EndTime Stopping Refused NeverLocked Same
CHECK_DEADLOCK FALSE
