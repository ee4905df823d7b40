SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2}
  Vals = {1, 2}
  None = None
INVARIANT OneWriter
PROPERTIES NeverLost Whole
