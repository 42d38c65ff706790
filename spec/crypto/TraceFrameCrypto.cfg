SPECIFICATION TraceSpec
CONSTANTS
    M = 256
    OOOFrames = 300
    OOORatchets = 5
    Retain = 5
    WrapDist = FALSE
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
