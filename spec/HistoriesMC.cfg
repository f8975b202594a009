SPECIFICATION Spec
INVARIANTS OnceOnly OperandsFirst InputsUntouched BuiltWhole Meaningful InOrder
CHECK_DEADLOCK FALSE
