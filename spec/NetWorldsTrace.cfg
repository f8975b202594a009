SPECIFICATION Spec
INVARIANT Done
PROPERTY Separate
CHECK_DEADLOCK FALSE
