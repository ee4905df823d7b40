SPECIFICATION Spec
CONSTANTS
Slip = "none"
Values = {1, 2, 3}
Objects = {1, 2}
INVARIANTS Right
CHECK_DEADLOCK FALSE
