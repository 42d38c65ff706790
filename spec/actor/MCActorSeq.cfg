SPECIFICATION ISpec
CONSTANTS
    Senders = {1}
    Delays <- MCDelays
    MaxTasks = 3
    MaxNow = 3
    Joins = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS ContractHolds
