SPECIFICATION Spec
CONSTANTS MaxDevices = 2 Ids = {"", "a", "b.monitor", "x.monitors"} States = {"enabled", "disabled", "unplugged"} Prefs = {"none", "voice", "multimedia"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
