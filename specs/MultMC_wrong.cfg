SPECIFICATION Spec
CONSTANTS
  Lmax = 2
  Kmax = 2
  WrongRule = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
