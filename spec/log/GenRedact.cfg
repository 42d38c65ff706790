SPECIFICATION Spec
CONSTANTS First = {0} MaxLines = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
