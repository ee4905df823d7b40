SPECIFICATION Spec
CONSTANTS MaxGen = 2 Slip = "forget"
INVARIANT Answer Switch
CHECK_DEADLOCK FALSE
