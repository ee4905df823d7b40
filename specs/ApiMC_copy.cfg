SPECIFICATION Spec
CONSTANTS
Slip = "copy"
Values = {1, 2}
Objects = {1, 2}
INVARIANTS Right
CHECK_DEADLOCK FALSE
