-------------------------- MODULE TraceEventStream --------------------------
EXTENDS EventStream, TraceKit
VARIABLES l, bad
tvars == <<vars, l, bad>>
Says(e) ==
    CASE e.ev = "SendDone" -> IF MaySend(e.x, e.ok) THEN {} ELSE {"push accepted or refused wrongly"}
      [] e.ev = "Recv" -> IF MayRecv(e.x) THEN {} ELSE {"wrong event received"}
      [] e.ev = "End" -> IF MayEnd THEN {} ELSE {"end reported too early"}
      [] OTHER -> {}
Act(e) ==
    CASE e.ev = "Join" -> Join(e.p)
      [] e.ev = "Quit" -> Quit(e.p)
      [] e.ev = "SendStart" -> SendStart(e.x)
      [] e.ev = "SendDone" -> SendDone(e.x, e.ok)
      [] e.ev = "Recv" -> Recv(e.x)
      [] e.ev = "CloseStart" -> CloseStart
      [] e.ev = "CloseDone" -> CloseDone
      [] OTHER -> UNCHANGED vars
TraceInit == Init0 /\ l = 1 /\ bad = FALSE
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN /\ bad' = FALSE /\ pushing' = {} /\ before' = <<>> /\ done' = {} /\ got' = <<>> /\ phase' = "open"
                               /\ must' = {} /\ late' = {} /\ live' = {}
        ELSE IF bad THEN UNCHANGED <<vars, bad>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED vars
        ELSE LET w == Says(e) IN
             IF w # {} THEN ReportDiff(l, e.ev, w, [phase |-> phase, got |-> got, must |-> must]) /\ bad' = TRUE /\ UNCHANGED vars
             ELSE Act(e) /\ bad' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
