SPECIFICATION MSpec
CONSTANTS
 Groups = {"g", "h"}
 Users = {"me", "ann"}
 RingIds = {1, 2}
 Self = "me"
 MaxAge = 60
 Record = FALSE
 Depth = 0
 Ages = {0, 61}
INVARIANT OneJoined
PROPERTIES RingsWhenFree BusyTold OnlyWhoMay AcceptedOnce ClientRing
CONSTRAINT Small
VIEW MView
CHECK_DEADLOCK FALSE
