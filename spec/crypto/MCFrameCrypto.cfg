SPECIFICATION MSpec
CONSTANTS
    M = 8
    OOOFrames = 2
    OOORatchets = 2
    Retain = 2
    WrapDist = FALSE
    MaxFrames = 4
    MaxKeys = 2
    MaxAdv = 2
    MaxAnn = 6
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TolerantDecryption ForwardSecret Bounded DistinctKeystreams OldBehind CounterMatches
PROPERTIES RefusedNoEffect
