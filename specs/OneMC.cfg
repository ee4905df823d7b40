SPECIFICATION Spec
CONSTANTS MaxGen = 1 Small = TRUE Slip = "none"
INVARIANT Answer
CHECK_DEADLOCK FALSE
