SPECIFICATION Spec
CONSTANTS
Slip = "angle"
Angles <- A2
Js = {1, 2}
INVARIANTS Right
CONSTRAINT Few
CHECK_DEADLOCK FALSE
