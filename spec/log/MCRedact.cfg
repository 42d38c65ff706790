SPECIFICATION Spec
CONSTANTS First = {0} MaxLines = 2
INVARIANTS Blind
CHECK_DEADLOCK FALSE
