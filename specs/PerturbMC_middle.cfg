SPECIFICATION Spec
CONSTANTS
  Slip = "middle"
  Deep = 3
INVARIANTS Symmetric Back Used Finite Axial
CHECK_DEADLOCK FALSE
CONSTRAINT Near
