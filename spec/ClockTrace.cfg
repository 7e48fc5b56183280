SPECIFICATION Spec
CONSTANTS
 Add <- BAdd
 Sub <- BSub
 Mul <- BMul
 Leq <- BLeq
 FloorDiv <- BFloorDiv
 Zero <- BZero
 One <- BOne
 MaxCount <- BMax
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
