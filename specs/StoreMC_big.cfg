SPECIFICATION Spec
CONSTANTS
  Objs = {o1, o2}
  Keys = {"a", "b", "c"}
  Bad <- SomeBad
  Slip = "none"
  MaxOps = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
