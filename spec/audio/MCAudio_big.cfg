SPECIFICATION Spec
CONSTANTS MaxDevices = 4 Ids = {"", "b.monitor"} States = {"enabled", "disabled"} Prefs = {"none", "voice"}
INVARIANT Consistent
CHECK_DEADLOCK FALSE
