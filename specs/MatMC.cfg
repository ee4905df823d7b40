SPECIFICATION Spec
CONSTANTS
  MaxLen = 0
  Slots = {1}
INVARIANTS PlusMinus TimesDistributes PickAll PickTwice HermitianKept RemoveTwice FoundThenRemoved SameBasis
CHECK_DEADLOCK FALSE
