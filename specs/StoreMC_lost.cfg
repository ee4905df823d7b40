SPECIFICATION Spec
CONSTANTS
  Objs = {o1, o2}
  Keys = {"a", "b"}
  Bad <- SomeBad
  Slip = "lost"
  MaxOps = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
