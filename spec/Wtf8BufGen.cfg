SPECIFICATION Spec
INVARIANTS Kept Emit
CHECK_DEADLOCK FALSE
