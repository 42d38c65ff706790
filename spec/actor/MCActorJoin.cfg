SPECIFICATION ISpec
CONSTANTS
    Senders = {1, 2}
    Delays <- MCDelays
    MaxTasks = 2
    MaxNow = 2
    Joins = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS ContractHolds
