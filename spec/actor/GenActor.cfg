SPECIFICATION GSpec
CONSTANTS
    Depth = 3
CHECK_DEADLOCK FALSE
INVARIANT Emit
