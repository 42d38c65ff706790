SPECIFICATION GSpec
CONSTANTS
    M = 256
    OOOFrames = 300
    OOORatchets = 5
    Retain = 5
    WrapDist = FALSE
    Depth = 10
    Bursts = {}
    Steps = {1}
    MaxKeys = 1
    AllFrames = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Emit
