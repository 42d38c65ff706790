SPECIFICATION TraceSpec
CONSTANTS
 Devices = {1, 2}
 MaxCalls = 99
 Hows = {}
 Views = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
