SPECIFICATION Spec
CONSTANTS Grid = 4 Slip = "none"
INVARIANTS Current Accepted Laws
CHECK_DEADLOCK FALSE
