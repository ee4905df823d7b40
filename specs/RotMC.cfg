SPECIFICATION Spec
CONSTANTS Slip = "none" MaxJ = 3
INVARIANTS Unitary BackAgain Factors Composes FullTurn Quarter VectorLike
CHECK_DEADLOCK FALSE
