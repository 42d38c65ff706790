---------------------------- MODULE TraceAssets ----------------------------
EXTENDS Assets, TraceKit
VARIABLES l, bad
tvars == <<vars, l, bad>>
Act(e) == CASE e.ev = "Add" -> Add(e.g, e.c, e.how) [] e.ev = "Get" -> Get(e.g, e.v)
TraceInit == manifest = <<>> /\ registry = <<>> /\ obs = [res |-> "init"] /\ l = 1 /\ bad = FALSE
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN bad' = FALSE /\ Start(e.manifest)
        ELSE IF bad THEN UNCHANGED <<vars, bad>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED vars
        ELSE /\ Act(e)
             /\ LET d == DiffOf(e.ev, e.obs, obs') IN
                IF d # {} THEN ReportDiff(l, e.ev, d, obs') /\ bad' = TRUE ELSE bad' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
