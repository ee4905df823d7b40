SPECIFICATION Spec
CONSTANTS MaxGen = 2 Slip = "kept"
INVARIANT Answer Switch
CHECK_DEADLOCK FALSE
