SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
INVARIANTS InOrderExactlyOnce InOrderPackets WindowsBounded GapFirst AckTruthful DropsOnlyConsumed KeepsUnacked AckDue MergeProgress
POSTCONDITION TraceAccepted
