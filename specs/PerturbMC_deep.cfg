SPECIFICATION Spec
CONSTANTS
  Slip = ""
  Deep = 4
INVARIANTS Symmetric Back Used Finite Axial
CHECK_DEADLOCK FALSE
CONSTRAINT Near
