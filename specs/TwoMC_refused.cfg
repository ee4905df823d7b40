SPECIFICATION Spec
CONSTANTS MaxGen = 2 Slip = "refused"
INVARIANT Answer Switch
CHECK_DEADLOCK FALSE
