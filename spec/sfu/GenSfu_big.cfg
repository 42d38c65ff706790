SPECIFICATION Spec
CONSTANTS Wide = TRUE
INVARIANTS Emit EmitLocal
CHECK_DEADLOCK FALSE
