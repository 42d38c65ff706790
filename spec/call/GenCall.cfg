SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4}
  Peers = {"p", "q"}
  Devs = {1, 2}
  Depth = 24
  Wide = TRUE
  Few = 2
  Rare = 6
  Menu = {}
  Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
