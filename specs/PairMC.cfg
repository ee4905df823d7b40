SPECIFICATION Spec
INVARIANTS Decompose Group Projections
CHECK_DEADLOCK FALSE
