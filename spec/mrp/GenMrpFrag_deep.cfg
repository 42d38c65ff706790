SPECIFICATION GSpec
CONSTANTS
    Depth = 6
    Caps = {3, 4}
    Nums = {99, 1, 2, 3}
CHECK_DEADLOCK FALSE
INVARIANTS Emit
