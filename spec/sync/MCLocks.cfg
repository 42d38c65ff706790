SPECIFICATION MSpec
CONSTANTS
    Threads = {1, 2, 3}
    MaxOps = 6
    MaxVal = 3
    Kinds = {"read", "write", "reset"}
    Depth = 99
    Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Holds Exclusive
