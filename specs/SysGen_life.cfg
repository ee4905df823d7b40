SPECIFICATION GSpec
CONSTANTS
  MaxLen = 30
  Mode = "life"
INVARIANT Emit
