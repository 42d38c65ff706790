SPECIFICATION MSpec
CONSTANTS
    Wrap = 3
    MaxReq = 3
    MaxRep = 3
    Depth = 99
    Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Holds Agree OnePerId
