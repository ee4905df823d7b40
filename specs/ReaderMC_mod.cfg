SPECIFICATION Spec
CONSTANTS
 Slip = "mod"
 Big = FALSE
INVARIANTS InPlace AllThere Forgotten Counted
