---------------------------- MODULE TraceEndorse ----------------------------
EXTENDS Endorse, TraceKit
VARIABLES l, skip
tvars == <<vars, l, skip>>
MapOf(ps) == [u \in {ps[i][1] : i \in DOMAIN ps} |-> (CHOOSE i \in DOMAIN ps : ps[i][1] = u)]
Tags(ps) == [u \in DOMAIN MapOf(ps) |-> ps[MapOf(ps)[u]][2]]
Act(e) == CASE e.ev = "insert" -> Insert(e.exp, Tags(e.users))
            [] e.ev = "invalid" -> Invalid(e.exp)
            [] e.ev = "clear" -> Clear(e.now)
            [] e.ev = "token" -> Token(e.exp, e.users)
            [] e.ev = "users" -> ForUsers(e.exp, e.users)
            [] e.ev = "forexp" -> ForExpiration(e.exp)
            [] e.ev = "latest" -> GetLatest
            [] e.ev = "hasupdate" -> HasUpdate
TraceInit == Init /\ l = 1 /\ skip = FALSE
Fresh == /\ sets' = <<>> /\ updated' = <<>> /\ bad' = {} /\ badAll' = 0 /\ shared' = 0 /\ clock' = 0
         /\ obs' = [res |-> "init"]
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN skip' = FALSE /\ Fresh
        ELSE IF skip THEN UNCHANGED <<vars, skip>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ skip' = TRUE /\ UNCHANGED vars
        ELSE /\ Act(e)
             /\ LET d == DiffOf(e.ev, e.obs, obs') IN
                IF d # {} THEN ReportDiff(l, e.ev, d, obs') /\ skip' = TRUE ELSE skip' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
