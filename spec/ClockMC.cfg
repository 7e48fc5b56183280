SPECIFICATION Spec
CONSTANTS
 Add <- IAdd
 Sub <- ISub
 Mul <- IMul
 Leq <- ILeq
 FloorDiv <- IDiv
 Zero = 0
 One = 1
 MaxCount = 9
 T = 6
 Steps = {1, 2, 3}
 Depth = 5
INVARIANTS NeverPastEnd Duration OnlyLastShort ListOnce
PROPERTIES OutputAligned NoDrift Monotone
CHECK_DEADLOCK FALSE
