SPECIFICATION USpec
CONSTANTS
 Depth = 6
 Kinds = {"group", "link"}
 Devs = {1, 10, 20}
 Waits = 0
INVARIANTS Forward Served Engaged
PROPERTIES Newcomers Owned Final OneQuestion NotLost Rings
CONSTRAINT Bound
VIEW MView
CHECK_DEADLOCK FALSE
