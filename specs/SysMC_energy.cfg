SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  Mixed = FALSE
  EnergyAfter = TRUE
INVARIANTS Independent
