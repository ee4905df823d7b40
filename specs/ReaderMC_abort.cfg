SPECIFICATION Spec
CONSTANTS
 Slip = "abort"
 Big = FALSE
INVARIANTS InPlace AllThere Forgotten Counted
