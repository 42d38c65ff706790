SPECIFICATION GSpec
CONSTANTS
 Devices = {1, 2}
 MaxCalls = 2
 Hows = {"own", "old", "other", "evil", "evil2", "weak", "long", "none"}
 Views <- V4
 Record = TRUE
CHECK_DEADLOCK FALSE
