SPECIFICATION Spec
INVARIANTS Guarantees
CHECK_DEADLOCK FALSE
