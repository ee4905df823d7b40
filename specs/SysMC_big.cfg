SPECIFICATION Spec
CONSTANTS
  MaxDepth = 5
  Mixed = FALSE
  EnergyAfter = FALSE
INVARIANTS Aligned Herm Independent RefusedUnchanged
