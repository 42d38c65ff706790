SPECIFICATION MSpec
CONSTANTS MaxPieces = 3 Cut = 1
INVARIANTS Concat RemovedIsAddress
CHECK_DEADLOCK FALSE
