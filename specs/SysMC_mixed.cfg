SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  Mixed = TRUE
  EnergyAfter = FALSE
INVARIANTS Independent
