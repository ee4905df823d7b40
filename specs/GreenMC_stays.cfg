SPECIFICATION Spec
CONSTANTS Grid = 4 Slip = "stays"
INVARIANTS Current Accepted Laws
CHECK_DEADLOCK FALSE
