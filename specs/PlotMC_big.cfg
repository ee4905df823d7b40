SPECIFICATION Spec
CONSTANTS
Slip = "none"
Angles <- A3
Js = {0, 1, 2}
INVARIANTS Right
CONSTRAINT Few
CHECK_DEADLOCK FALSE
