SPECIFICATION MSpec
CONSTANTS
    Producers = {1, 2}
    MaxItems = 4
    Depth = 99
    Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Holds
