SPECIFICATION MSpec
CONSTANTS MaxPieces = 2 Cut = 2
INVARIANTS Concat RemovedIsAddress
CHECK_DEADLOCK FALSE
