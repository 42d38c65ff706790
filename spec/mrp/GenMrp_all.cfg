SPECIFICATION GSpec
CONSTANTS
    Depth = 6
    MaxMsgs = 4
    Caps = {2, 3}
    Frags = {2}
    BothWays = FALSE
    WithFail = FALSE
CHECK_DEADLOCK FALSE
INVARIANT Emit
