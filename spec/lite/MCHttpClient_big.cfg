SPECIFICATION MSpec
CONSTANTS
    Wrap = 3
    MaxReq = 4
    MaxRep = 4
    Depth = 99
    Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Holds Agree OnePerId
