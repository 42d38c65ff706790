SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Peers = {"p", "q"}
  Devs = {1, 2}
  Depth = 9
  Wide = TRUE
  Few = 0
  Rare = 0
  Menu = {1, 2, 19, 27}
  Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
