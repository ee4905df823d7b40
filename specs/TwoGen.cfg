SPECIFICATION GSpec
CONSTANTS
  MaxLen = 24
INVARIANT Emit
