SPECIFICATION Spec
CONSTANTS MaxGen = 1 Small = TRUE Slip = "halfway"
INVARIANT Answer
CHECK_DEADLOCK FALSE
