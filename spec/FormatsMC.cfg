SPECIFICATION Spec
CONSTANTS NEv = 2
NEns = 2
NInner = 2
INVARIANTS OneEndEach AllEnded Ordered Final NoPartInOthers StartFirst
CHECK_DEADLOCK FALSE
