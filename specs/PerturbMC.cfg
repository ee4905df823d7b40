SPECIFICATION Spec
CONSTANTS
  Slip = ""
  Deep = 3
INVARIANTS Symmetric Back Used Finite Axial
CHECK_DEADLOCK FALSE
CONSTRAINT Near
