SPECIFICATION Spec
CONSTANTS First = {0,2,5} MaxLines = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
