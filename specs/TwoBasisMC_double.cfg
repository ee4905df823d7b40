SPECIFICATION Spec
CONSTANT Slip = "double"
INVARIANTS Whole Twice Commute Inside Parity
CHECK_DEADLOCK FALSE
