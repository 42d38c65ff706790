----------------------------- MODULE TraceRedact -----------------------------
EXTENDS Redact, TraceKit
VARIABLES l
\* whether empty lines at the end are kept is not specified
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = "" THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
        CASE e.ev = "Reset" -> TRUE
          [] e.ev = "Panic" -> ReportPanic(l)
          [] e.ev = "Name" -> LET w == ShownName(e.name, e.ascii) IN e.obs.shown = w \/ ReportDiff(l, e.ev, {"shown"}, [shown |-> w])
          [] e.ev = "Message" -> LET w == IF e.logged THEN <<ShownMessage(e.parts)>> ELSE <<>>
                                 IN e.obs.shown = w \/ ReportDiff(l, e.ev, {"shown"}, [shown |-> w])
          [] e.ev = "Redact" -> LET w == ShownText(e.lines) IN Trim(e.obs.lines) = Trim(w) \/ ReportDiff(l, e.ev, {"lines"}, [lines |-> w])
TraceSpec == l = 1 /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
