SPECIFICATION Spec
CONSTANTS Wide = FALSE
INVARIANTS Sensible NoRequestFor
CHECK_DEADLOCK FALSE
