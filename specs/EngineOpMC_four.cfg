SPECIFICATION Spec
CONSTANTS
  Slip = "no"
  Fields <- MCFields
  Firsts <- MCFirsts
  Expos = {4}
INVARIANTS Perm4
