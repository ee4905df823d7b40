SPECIFICATION GSpec
CONSTANTS
  Threads = {1}
  Keys = {0, 1}
  Vals = {9}
  None = 0
  MaxLen = 5
INVARIANT Emit
