----------------------------- MODULE TraceRings ------------------------------
EXTENDS Rings, TraceKit
VARIABLES l, bad
tvars == <<vars, l, bad>>
Start == self' = FALSE /\ calling' = FALSE /\ rings' = <<>> /\ timers' = <<>> /\ clients' = <<>> /\ obs' = <<>>
Refused == obs' = <<>> /\ UNCHANGED <<self, calling, rings, timers, clients>>
Act(e) ==
    CASE e.ev = "SetSelf" -> SetSelf [] e.ev = "StartCall" -> StartCall [] e.ev = "EndCall" -> EndCall
      [] e.ev = "Age" -> Age(e.n) [] e.ev = "Ring" -> Ring(e.g, e.id, e.by, e.age)
      [] e.ev = "Withdrawn" -> Withdrawn(e.g, e.id, e.by) [] e.ev = "Response" -> Response(e.g, e.id, e.by, e.t)
      [] e.ev = "Cancel" -> Cancel(e.g, e.id, e.reason) [] e.ev = "Open" -> IF CanOpen(e.g) THEN Open(e.g) ELSE Refused
      [] e.ev = "Join" -> Join(e.g) [] e.ev = "Leave" -> Leave(e.g) [] e.ev = "Close" -> Close(e.g)
      [] e.ev = "Noise" -> Noise [] e.ev = "TimeOut" -> TimeOut
      [] e.ev \in {"Opaque", "OfferAge"} -> Refused
Want(e) ==
    CASE e.ev = "Opaque" -> [res |-> Opaque(e.kind, e.age, e.wanted)]
      [] e.ev = "OfferAge" -> [res |-> IF e.age > MaxAge THEN "Expired" ELSE "ok"]
      [] OTHER -> [out |-> obs', busy |-> Busy', res |-> IF e.ev = "Open" /\ ~CanOpen(e.g) THEN "refused" ELSE "ok"]
\* rings that run out together are reported in no particular order
Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Diff(e, want) == IF e.ev # "TimeOut" THEN {f \in DOMAIN want : e.obs[f] # want[f]}
    ELSE IF Bag(e.obs.out) = Bag(want.out) /\ e.obs.busy = want.busy THEN {} ELSE {"out"}
TraceInit == l = 1 /\ bad = FALSE /\ Init
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN bad' = FALSE /\ Start
        ELSE IF bad THEN UNCHANGED <<vars, bad>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED vars
        ELSE /\ Act(e)
             /\ IF Diff(e, Want(e)) = {} THEN bad' = FALSE ELSE ReportDiff(l, e.ev, Diff(e, Want(e)), Want(e)) /\ bad' = TRUE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
