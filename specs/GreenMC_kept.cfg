SPECIFICATION Spec
CONSTANTS Grid = 4 Slip = "kept"
INVARIANTS Current Accepted Laws
CHECK_DEADLOCK FALSE
