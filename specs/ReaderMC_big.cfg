SPECIFICATION Spec
CONSTANTS
 Slip = "none"
 Big = TRUE
INVARIANTS InPlace AllThere Forgotten Counted
