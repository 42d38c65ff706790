SPECIFICATION MSpec
CONSTANTS
    Producers = {1, 2, 3}
    MaxItems = 5
    Depth = 99
    Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Holds
