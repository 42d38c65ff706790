SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Peers = {"p", "q"}
  Devs = {1, 2}
  Depth = 5
  Wide = FALSE
  Few = 0
  Rare = 0
  Menu = {1, 2, 17}
  Gen = FALSE
PROPERTIES PC01 PC02 PC05 PC06 PC07 PC08 PS02
INVARIANT IS03
CONSTRAINT Short
VIEW View
CHECK_DEADLOCK FALSE
