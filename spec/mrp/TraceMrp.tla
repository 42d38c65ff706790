------------------------------ MODULE TraceMrp ------------------------------
(* Validates recorded executions of two real MrpStream objects against Mrp.  *)
(* Each line is one call: the model takes the same action, and every field   *)
(* of the recorded observation must equal the model's.  The first difference *)
(* of an episode is reported; the rest of that episode is then skipped.      *)
EXTENDS Mrp, TraceKit
VARIABLES l, bad
tvars == <<vars, l, bad>>

Act(e) ==
    CASE e.ev = "Send" -> Send(e.e, e.d, e.fail, e.to)
      [] e.ev = "SendFrag" -> SendFrag(e.e, e.d, e.to)
      [] e.ev = "Ack" -> SendAck(e.e, e.fail)
      [] e.ev = "Resend" -> Resend(e.e, e.failat, e.to)
      [] e.ev = "Tick" -> Tick(e.e, e.dt)
      [] e.ev = "Deliver" -> Recv(e.e, e.p)
      [] e.ev = "Inject" -> Recv(e.e, e.p)

TraceInit == InitWith(1, TRUE) /\ l = 1 /\ bad = FALSE
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN bad' = FALSE /\ Reset(e.cap, e.merge)
        ELSE IF bad THEN UNCHANGED <<vars, bad>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED vars
        ELSE /\ Act(e)
             /\ LET d == DiffOf(e.ev, e.obs, obs') IN
                IF d # {} THEN ReportDiff(l, e.ev, d, obs') /\ bad' = TRUE ELSE bad' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
