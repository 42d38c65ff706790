SPECIFICATION MSpec
CONSTANTS
    Producers = {1, 2}
    MaxItems = 4
    Depth = 8
    Gen = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
