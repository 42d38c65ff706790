SPECIFICATION Spec
CONSTANTS Hosts = 2 MaxPackets = 2 Cfgs = {1, 3, 5} Sizes = {100}
INVARIANT Contract
CHECK_DEADLOCK FALSE
