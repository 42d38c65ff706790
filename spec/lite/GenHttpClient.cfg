SPECIFICATION MSpec
CONSTANTS
    Wrap = 4
    MaxReq = 4
    MaxRep = 4
    Depth = 5
    Gen = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
