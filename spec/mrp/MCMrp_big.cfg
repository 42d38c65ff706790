SPECIFICATION MSpec
CONSTANTS
    MaxMsgs = 3
    MaxNow = 1
    Caps = {2}
    Fails = {TRUE, FALSE}
    Frags = {2}
    BothWays = TRUE
VIEW MView
CHECK_DEADLOCK FALSE
INVARIANTS InOrderExactlyOnce WindowsBounded GapFirst AckTruthful DropsOnlyConsumed KeepsUnacked AckDue MergeProgress
PROPERTIES RefusedNoEffect Monotone
