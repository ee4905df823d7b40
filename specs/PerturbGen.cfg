SPECIFICATION GSpec
CONSTANTS
  MaxLen = 8
INVARIANT Emit
CONSTRAINT Stop
