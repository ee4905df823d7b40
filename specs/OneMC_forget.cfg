SPECIFICATION Spec
CONSTANTS MaxGen = 1 Small = TRUE Slip = "forget"
INVARIANT Answer
CHECK_DEADLOCK FALSE
