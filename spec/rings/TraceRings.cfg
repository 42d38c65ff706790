SPECIFICATION TraceSpec
CONSTANTS
 Groups = {"g", "h"}
 Users = {"me", "ann", "bob"}
 RingIds = {1, 2}
 Self = "me"
 MaxAge = 60
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
