SPECIFICATION GSpec
CONSTANTS
 Groups = {"g", "h"}
 Users = {"me", "ann", "bob"}
 RingIds = {1, 2}
 Self = "me"
 MaxAge = 60
 Record = FALSE
 Depth = 24
 Ages = {0, 59, 60, 61, 100}
CHECK_DEADLOCK FALSE
