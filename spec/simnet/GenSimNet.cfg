SPECIFICATION GenSpec
CONSTANTS Hosts = 3 MaxPackets = 5 Cfgs = {1, 2, 3, 4, 5, 6, 7, 8} Sizes = {0, 10, 100, 300}
INVARIANT Emit
CHECK_DEADLOCK FALSE
