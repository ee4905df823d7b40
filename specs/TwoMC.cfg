SPECIFICATION Spec
CONSTANTS MaxGen = 2 Slip = "none"
INVARIANT Answer Switch
CHECK_DEADLOCK FALSE
