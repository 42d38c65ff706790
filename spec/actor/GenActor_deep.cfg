SPECIFICATION GSpec
CONSTANTS
    Depth = 4
CHECK_DEADLOCK FALSE
INVARIANT Emit
