SPECIFICATION LSpec
CONSTANTS
    Msgs = 3
    Window = 2
CHECK_DEADLOCK FALSE
INVARIANTS InOrderExactlyOnce AckTruthful AckDue
PROPERTIES Delivered AllAcked
