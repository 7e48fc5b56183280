SPECIFICATION Spec
CONSTANTS
  NX = {0, 1}
  NA = 4
INVARIANTS Additive Conjugate IntegerCharge Nishijima Statistics SelfConjugate Nucleons Back
CHECK_DEADLOCK FALSE
