SPECIFICATION Spec
CONSTANTS
Slip = "swap"
Angles <- A2
Js = {1, 2}
INVARIANTS Right
CONSTRAINT Few
CHECK_DEADLOCK FALSE
