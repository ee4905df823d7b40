SPECIFICATION GSpec
CONSTANTS
  MaxLen = 30
  Mode = "edit"
INVARIANT Emit
