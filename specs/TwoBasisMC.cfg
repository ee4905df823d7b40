SPECIFICATION Spec
CONSTANT Slip = "none"
INVARIANTS Whole Twice Commute Inside Parity
CHECK_DEADLOCK FALSE
