SPECIFICATION Spec
CONSTANTS MaxGen = 2 Slip = "terms"
INVARIANT Answer Switch
CHECK_DEADLOCK FALSE
