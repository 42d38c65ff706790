---------------------------- MODULE TraceSignaling ----------------------------
EXTENDS Signaling, TraceKit
VARIABLES l
Want(e) ==
    CASE e.ev = "Read" -> [v |-> Connection(e.bytes)]                     \* an offer or an answer
      [] e.ev = "Make" -> [v |-> <<<<e.params>>>>, back |-> <<<<e.params>>>>, media |-> e.media]
      [] e.ev = "Cand" -> Candidate(e.bytes)
      [] e.ev = "Add" -> [says |-> [sdp |-> <<e.sdp>>, removed |-> <<>>]]
      \* a removal also adds something, for clients that insist on it
      [] e.ev = "Remove" -> [removed |-> <<[ip |-> e.ip, port |-> e.port]>>, added |-> TRUE]
      [] e.ev = "Hangup" -> LET h == ReadHangup(e.typ, e.device) IN [kind |-> h.kind, dev |-> h.dev, typ |-> IF h.kind = "none" THEN 9 ELSE e.typ]
Saw(e) ==   \* what the code produced, as the specification reads it
    CASE e.ev = "Make" -> [v |-> Connection(e.obs.bytes), back |-> e.obs.back, media |-> e.obs.media]
      [] e.ev = "Add" -> [says |-> Candidate(e.obs.bytes)]
      [] e.ev = "Remove" -> [removed |-> Candidate(e.obs.bytes).removed, added |-> Candidate(e.obs.bytes).sdp # <<>>]
      [] OTHER -> e.obs
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
        CASE e.ev = "Reset" -> TRUE
          [] e.ev = "Panic" -> ReportPanic(l)
          [] OTHER -> LET w == Want(e) s == Saw(e) d == {f \in DOMAIN w : f \notin DOMAIN s \/ s[f] # w[f]}
                      IN d = {} \/ ReportDiff(l, e.ev, d, w)
TraceSpec == l = 1 /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
