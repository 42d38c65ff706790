--------------------------- MODULE TraceHttpClient ---------------------------
EXTENDS HttpClient, TraceKit
VARIABLES l, bad
tvars == <<vars, l, bad>>
Says(e) ==
    CASE e.ev = "Sent" -> IF Fresh(e.id) /\ e.intact THEN {} ELSE {"identifier in use"}
      [] e.ev = "Handle" -> IF MayHandle(e.q, e.what) THEN {} ELSE {"wrong handler or answer"}
      [] e.ev = "Done" -> IF MayBeDone(e.rep) THEN {} ELSE {"handler not called"}
      [] e.ev = "End" -> IF \A q \in DOMAIN ids : answered[q] # <<>> THEN {} ELSE {"handler never called"}
      [] OTHER -> {}
Act(e) ==
    CASE e.ev = "Sent" -> Sent(e.q, e.id)
      [] e.ev = "Report" -> Report(e.rep, e.id, e.what)
      [] e.ev = "Handle" -> Handle(e.q, e.what)
      [] e.ev = "Done" -> Done(e.rep)
      [] OTHER -> UNCHANGED vars
TraceInit == Init0 /\ l = 1 /\ bad = FALSE
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN bad' = FALSE /\ ids' = <<>> /\ answered' = <<>> /\ used' = {} /\ reports' = <<>> /\ open' = {}
        ELSE IF bad THEN UNCHANGED <<vars, bad>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED vars
        ELSE LET w == Says(e) IN
             IF w # {} THEN ReportDiff(l, e.ev, w, "contract") /\ bad' = TRUE /\ UNCHANGED vars
             ELSE Act(e) /\ bad' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
