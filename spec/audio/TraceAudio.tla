------------------------------ MODULE TraceAudio ------------------------------
EXTENDS Audio, TraceKit
VARIABLES l
Want(e) == IF e.ev = "List" THEN Listing(e.devs) ELSE Copied(e.text, e.size)
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
        CASE e.ev = "Reset" -> TRUE
          [] e.ev = "Panic" -> ReportPanic(l)
          [] OTHER -> LET w == Want(e) d == {f \in DOMAIN w : f \notin DOMAIN e.obs \/ e.obs[f] # w[f]} IN d = {} \/ ReportDiff(l, e.ev, d, w)
TraceSpec == l = 1 /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
