-------------------------- MODULE TraceFrameCrypto --------------------------
EXTENDS FrameCrypto, TraceKit
VARIABLES l, bad,
          names   \* symbolic secret -> identity of the byte string the code showed for it
tvars == <<vars, l, bad, names>>

FrameOf(e) == [k |-> frames[e.f].k, n |-> frames[e.f].n, c |-> e.c, fc |-> e.fc,
               ok |-> e.alter \in {"none", "sender"}]
Act(e) ==
    CASE e.ev = "Encrypt" -> Encrypt(e.s, e.cnt)
      [] e.ev = "Burst" -> Burst(e.s, e.cnt)
      [] e.ev = "Advance" -> Advance(e.s, e.times)
      [] e.ev = "ResetKey" -> ResetKey(e.s)
      [] e.ev = "Announce" -> Announce(e.s)
      [] e.ev = "AddKey" -> AddKey(e.r, e.x, anns[e.a])
      [] e.ev = "Decrypt" -> Decrypt(e.r, e.x, FrameOf(e))
      [] e.ev = "Report" -> Report(e.r)
      [] e.ev = "Fresh" -> obs' = [res |-> "ok", fresh |-> TRUE] /\ UNCHANGED <<nodes, snd, fc, rcv, errs, frames, anns, keys>>

\* the same secret always shows the same bytes, different ones different bytes
NameOk(e) == LET sym == obs'.sec IN
    IF sym \in DOMAIN names THEN names[sym] = e.secid ELSE \A t \in DOMAIN names : names[t] # e.secid
NameDiff(e) == IF "secid" \in DOMAIN e /\ "sec" \in Relevant(e.ev) /\ ~NameOk(e) THEN {"sec"} ELSE {}

TraceInit == /\ l = 1 /\ bad = FALSE /\ names = <<>>
             /\ nodes = {1} /\ snd = [s \in {1} |-> [k |-> 1, n |-> 0]] /\ fc = [s \in {1} |-> 0]
             /\ rcv = <<>> /\ errs = <<>> /\ frames = <<>> /\ anns = <<>> /\ keys = 1 /\ obs = [res |-> "init"]
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN bad' = FALSE /\ names' = <<>> /\ Start(1..e.n)
        ELSE IF bad THEN UNCHANGED <<vars, bad, names>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED <<vars, names>>
        ELSE /\ Act(e)
             /\ names' = IF "secid" \in DOMAIN e THEN (obs'.sec :> e.secid) @@ names ELSE names
             /\ LET d == DiffOf(e.ev, e.obs, obs') \cup NameDiff(e) IN
                IF d # {} THEN ReportDiff(l, e.ev, d, obs') /\ bad' = TRUE ELSE bad' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
