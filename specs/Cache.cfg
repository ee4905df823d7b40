SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Keys = {k1, k2}
  Vals = {v1, v2}
  None = None
INVARIANTS TypeOK RestoreSeesStored
PROPERTY WriteOnce
