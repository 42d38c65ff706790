SPECIFICATION GSpec
CONSTANTS
 Devices = {1}
 MaxCalls = 1
 Hows = {"own", "evil", "evil2", "weak", "short", "long", "none"}
 Views <- V4
 Record = TRUE
CHECK_DEADLOCK FALSE
