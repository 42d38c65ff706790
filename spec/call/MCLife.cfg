SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Peers = {"p", "q"}
  Devs = {1, 2}
  Depth = 7
  Wide = FALSE
  Few = 0
  Rare = 0
  Menu = {3, 13, 14, 17, 18, 19, 21, 26}
  Gen = FALSE
PROPERTIES PC01 PC02 PC05 PC06 PC07 PC08 PS02
CONSTRAINT Short
VIEW View
CHECK_DEADLOCK FALSE
