SPECIFICATION Spec
CONSTANTS
  Null = Null
  Ns = {1, 2}
  MaxRows = 2
CONSTRAINT Bound
INVARIANTS RowIsReal DoneMeansNothingLeft
PROPERTIES OnlyWritesWrite InOrder
