SPECIFICATION GSpec
CONSTANTS
  Confs = {1, 2}
  NoFile = NoFile
  Keys = {"a", "a.b"}
  Vals <- MCVals
  Files = {"f"}
  MaxLen = 4
INVARIANT Emit
