SPECIFICATION Spec
CONSTANTS
 Slip = "none"
 Big = FALSE
INVARIANTS InPlace AllThere Forgotten Counted
