SPECIFICATION MSpec
CONSTANTS MaxPieces = 3 Cut = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
