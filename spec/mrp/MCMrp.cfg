SPECIFICATION MSpec
CONSTANTS
    MaxMsgs = 4
    MaxNow = 1
    Caps = {1, 2, 3}
    Fails = {TRUE, FALSE}
    Frags = {2}
    BothWays = FALSE
VIEW MView
CHECK_DEADLOCK FALSE
INVARIANTS InOrderExactlyOnce WindowsBounded GapFirst AckTruthful DropsOnlyConsumed KeepsUnacked AckDue MergeProgress
PROPERTIES RefusedNoEffect Monotone
