SPECIFICATION GSpec
CONSTANTS
 Depth = 45
 Kinds = {"group", "link"}
 Devs = {1, 2, 10, 11, 20, 21, 30, 40}
 Waits = 6
INVARIANTS Forward Served Engaged
PROPERTIES Newcomers Owned Final OneQuestion NotLost Rings
CHECK_DEADLOCK FALSE
