SPECIFICATION Spec
CONSTANTS
 Slip = "reset"
 Big = FALSE
INVARIANTS InPlace AllThere Forgotten Counted
