SPECIFICATION MSpec
CONSTANTS
    M = 8
    OOOFrames = 2
    OOORatchets = 2
    Retain = 2
    WrapDist = TRUE
    MaxFrames = 5
    MaxKeys = 1
    MaxAdv = 4
    MaxAnn = 6
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TolerantDecryption ForwardSecret Bounded DistinctKeystreams OldBehind CounterMatches
PROPERTIES RefusedNoEffect
