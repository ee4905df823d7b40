SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  Mixed = FALSE
  EnergyAfter = FALSE
INVARIANTS Aligned Herm Independent RefusedUnchanged
