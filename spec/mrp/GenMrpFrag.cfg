SPECIFICATION GSpec
CONSTANTS
    Depth = 5
    Caps = {4}
    Nums = {99, 2, 3}
CHECK_DEADLOCK FALSE
INVARIANTS Emit
