SPECIFICATION Spec
CONSTANT
 MaxOps = 4
INVARIANTS Aliases SeenIffUsed OthersUntouched
CHECK_DEADLOCK FALSE
