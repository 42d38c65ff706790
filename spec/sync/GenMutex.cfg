SPECIFICATION MSpec
CONSTANTS
    Threads = {1, 2}
    MaxOps = 6
    MaxVal = 3
    Kinds = {"lock", "reset"}
    Depth = 7
    Gen = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
