SPECIFICATION Spec
INVARIANT Nearest
CHECK_DEADLOCK FALSE
