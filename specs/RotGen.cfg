SPECIFICATION GSpec
CONSTANTS
  MaxLen = 14
INVARIANT Emit
