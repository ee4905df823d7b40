SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Keys = {k1, k2}
  Vals = {v1, v2}
  None = None
  Locked = {"save", "restore", "clear"}
INVARIANT NoStaleRead
PROPERTY Refines
