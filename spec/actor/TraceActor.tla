----------------------------- MODULE TraceActor -----------------------------
EXTENDS Actor, TraceKit
VARIABLES l, bad
tvars == <<vars, l, bad>>
Says(e) ==  \* broken parts of the contract
    CASE e.ev = "Start" -> WhyNot(e.id, e.t)
      [] e.ev = "JoinRet" -> IF MayReturnJoined(ToSet(e.as), ncalls = 1) THEN {} ELSE {"joined while running"}
      [] e.ev = "Gone" -> IF run[e.a] = 0 THEN {} ELSE {"gone while running"}
      [] e.ev = "Quiet" -> IF Quiet THEN {} ELSE {"task never ran"}
      [] e.ev = "Has" -> IF e.stopped = (ncalls > 0) THEN {} ELSE {"has_been_stopped"}
      [] e.ev = "StartRes" -> IF e.ok THEN {} ELSE {"start refused"}
      [] OTHER -> {}
Act(e) ==
    CASE e.ev = "New" -> NewActor(e.a, e.fail)
      [] e.ev = "SendCall" -> SendCall(e.id, e.a, e.d, e.t)
      [] e.ev = "SendRet" -> SendRet(e.id, e.t)
      [] e.ev = "Start" -> StartTask(e.id)
      [] e.ev = "End" -> EndTask(e.id)
      [] e.ev = "StopCall" -> StopCall(ToSet(e.as))
      [] e.ev \in {"StopRet", "JoinRet"} -> StopRet(ToSet(e.as))
      [] e.ev = "Gone" -> Gone(e.a)
      [] OTHER -> UNCHANGED <<task, run, stp, slack, gone, ncalls>>
TraceInit == Init0 /\ l = 1 /\ bad = FALSE
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN /\ bad' = FALSE /\ now' = 0 /\ task' = <<>> /\ run' = <<>> /\ stp' = <<>>
                               /\ slack' = <<>> /\ gone' = <<>> /\ ncalls' = 0
        ELSE IF bad THEN UNCHANGED <<vars, bad>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED vars
        ELSE LET w == Says(e) IN
             IF w # {} THEN ReportDiff(l, e.ev, w, "contract") /\ bad' = TRUE /\ UNCHANGED vars
             ELSE Act(e) /\ now' = e.t /\ bad' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
