SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Peers = {"p", "q"}
  Devs = {1}
  Depth = 7
  Wide = FALSE
  Few = 0
  Rare = 0
  Menu = {4, 13, 14, 15, 17, 19}
  Gen = FALSE
PROPERTIES PC01 PC02 PC05 PC06 PC07 PC08 PS02
CONSTRAINT Short
VIEW View
CHECK_DEADLOCK FALSE
