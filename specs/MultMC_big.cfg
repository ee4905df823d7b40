SPECIFICATION Spec
CONSTANTS
  Lmax = 4
  Kmax = 3
  WrongRule = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
