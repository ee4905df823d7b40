SPECIFICATION Spec
CONSTANTS
  Slip = "between"
  Deep = 3
INVARIANTS Symmetric Back Used Finite Axial
CHECK_DEADLOCK FALSE
CONSTRAINT Near
