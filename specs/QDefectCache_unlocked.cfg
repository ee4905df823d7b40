SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Dbs = {d1, d2}
  Levels = {q1, q2}
  None = None
  Serial = FALSE
INVARIANTS Right
