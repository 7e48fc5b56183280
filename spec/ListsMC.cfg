SPECIFICATION Spec
CONSTANTS NT = 3
ND = 3
INVARIANT TypesClosed
INVARIANT NamesUnique
INVARIANT MultipletsWhole
INVARIANT Conserving
INVARIANT SumsToOne
INVARIANT ConjugateModes
CHECK_DEADLOCK FALSE
