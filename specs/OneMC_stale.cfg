SPECIFICATION Spec
CONSTANTS MaxGen = 1 Small = TRUE Slip = "stale"
INVARIANT Answer
CHECK_DEADLOCK FALSE
