SPECIFICATION GSpec
CONSTANTS
  Null = Null
  Ns = {1, 2, 3}
  MaxRows = 9
  MaxLen = 40
INVARIANT Emit
