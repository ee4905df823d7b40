SPECIFICATION Spec
CONSTANTS
Slip = "shared"
Workers = {1, 2}
Fields = {1, 2, 3}
Starts = {1, 2}
Calcs = 2
INVARIANTS Right Complete
CHECK_DEADLOCK FALSE
