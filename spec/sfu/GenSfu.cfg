SPECIFICATION Spec
CONSTANTS Wide = FALSE
INVARIANTS Emit EmitLocal
CHECK_DEADLOCK FALSE
