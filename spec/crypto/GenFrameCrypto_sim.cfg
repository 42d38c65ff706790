SPECIFICATION GSpec
CONSTANTS
    M = 256
    OOOFrames = 300
    OOORatchets = 5
    Retain = 5
    WrapDist = FALSE
    Depth = 40
    Bursts = {299, 300}
    Steps = {1, 2, 5, 6}
    MaxKeys = 7
    AllFrames = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Emit
