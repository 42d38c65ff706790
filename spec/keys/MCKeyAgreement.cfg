SPECIFICATION MSpec
CONSTANTS
 Devices = {1, 2}
 MaxCalls = 2
 Hows = {"own", "old", "other", "evil", "weak", "none"}
 Views <- V2
 Record = FALSE
INVARIANTS Agree Apart Secret NoWeak
CHECK_DEADLOCK FALSE
