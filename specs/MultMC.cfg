SPECIFICATION Spec
CONSTANTS
  Lmax = 2
  Kmax = 3
  WrongRule = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
