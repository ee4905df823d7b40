SPECIFICATION GSpec
CONSTANTS
  MaxLen = 12
INVARIANT Emit
