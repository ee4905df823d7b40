SPECIFICATION GSpec
CONSTANTS
  MaxLen = 40
  Slots = {1, 2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
