----------------------------- MODULE TraceLocks -----------------------------
EXTENDS Locks, TraceKit
VARIABLES l, bad
tvars == <<vars, l, bad>>
Says(e) ==
    CASE e.ev = "Got" -> IF MayGet(e.t, e.v, e.was) THEN {} ELSE {"access not allowed"}
      [] e.ev = "Refused" -> (IF MayRefuse(e.t) THEN {} ELSE {"refused"}) \cup (IF e.named THEN {} ELSE {"error does not name the lock"})
      [] OTHER -> {}
Act(e) ==
    CASE e.ev = "Ask" -> Ask(e.t, e.op)
      [] e.ev = "Got" -> Get(e.t, e.v)
      [] e.ev = "Refused" -> Refuse(e.t)
      [] e.ev = "Write" -> Write(e.t, e.v)
      [] e.ev = "Leave" -> Leave(e.t)
      [] e.ev = "Crash" -> Crash(e.t)
TraceInit == Init0 /\ l = 1 /\ bad = FALSE
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN bad' = FALSE /\ hold' = <<>> /\ asks' = <<>> /\ val' = Zero /\ state' = "fine"
        ELSE IF bad THEN UNCHANGED <<vars, bad>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED vars
        ELSE LET w == Says(e) IN
             IF w # {} THEN ReportDiff(l, e.ev, w, [state |-> state, val |-> val, hold |-> hold]) /\ bad' = TRUE /\ UNCHANGED vars
             ELSE Act(e) /\ bad' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
