SPECIFICATION Spec
CONSTANTS Hosts = 2 MaxPackets = 3 Cfgs = {1, 3, 5, 6} Sizes = {100}
INVARIANT Contract
CHECK_DEADLOCK FALSE
