SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Dbs = {d1, d2}
  Levels = {q1, q2}
  None = None
  Serial = TRUE
INVARIANTS Right TableRight
