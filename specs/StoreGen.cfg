SPECIFICATION GSpec
CONSTANTS
  MaxLen = 30
INVARIANT Emit
