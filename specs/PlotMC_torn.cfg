SPECIFICATION Spec
CONSTANTS
Slip = "torn"
Angles <- A2
Js = {1, 2}
INVARIANTS Right
CONSTRAINT Few
CHECK_DEADLOCK FALSE
