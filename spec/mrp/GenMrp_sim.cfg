SPECIFICATION GSpec
CONSTANTS
    Depth = 30
    MaxMsgs = 12
    Caps = {1, 2, 3, 4}
    Frags = {1, 2, 3}
    BothWays = TRUE
    WithFail = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Emit
