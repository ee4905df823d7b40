SPECIFICATION Spec
CONSTANTS
Slip = "none"
Angles <- A2
Js = {1, 2}
INVARIANTS Right
CONSTRAINT Few
CHECK_DEADLOCK FALSE
