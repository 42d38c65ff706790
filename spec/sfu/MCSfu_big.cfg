SPECIFICATION Spec
CONSTANTS Wide = TRUE
INVARIANTS Sensible NoRequestFor
CHECK_DEADLOCK FALSE
