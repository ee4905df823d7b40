SPECIFICATION Spec
CONSTANTS MaxGen = 3 Small = FALSE Slip = "none"
INVARIANT Answer
CHECK_DEADLOCK FALSE
