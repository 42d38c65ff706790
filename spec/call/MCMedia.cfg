SPECIFICATION Spec
CONSTANTS
  Ids = {1}
  Peers = {"p"}
  Devs = {1}
  Depth = 8
  Wide = FALSE
  Few = 0
  Rare = 0
  Menu = {5, 9, 12, 17, 22, 24}
  Gen = FALSE
PROPERTIES PC01 PC02 PC05 PC06 PC07 PC08 PS02
CONSTRAINT Short
VIEW View
CHECK_DEADLOCK FALSE
