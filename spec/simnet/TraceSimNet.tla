----------------------------- MODULE TraceSimNet -----------------------------
EXTENDS SimNet, TraceKit
VARIABLES l
\* got: [p (packet number), host, intact, at (microseconds since it was sent), t (since the start)] in the order of arrival
NetWrong(e) ==
    LET hs == e.hosts ps == e.packets got == e.obs.got
        To(h) == SelectSeq(got, LAMBDA g : g.host = h)
        Bytes(g) == Size(hs, ps, g.p)
    IN (IF \E i \in DOMAIN got : got[i].p \notin DOMAIN ps \/ ~got[i].intact THEN {"altered"}
        ELSE (IF \E i \in DOMAIN got : got[i].host # ps[got[i].p].dst THEN {"wrong host"}
              ELSE (IF \E i \in DOMAIN got : Never(hs, ps, got[i].p) THEN {"should be lost"} ELSE {})
              \cup (IF \E i, j \in DOMAIN got : i < j /\ got[i].p = got[j].p THEN {"twice"} ELSE {})
              \cup (IF \E p \in DOMAIN ps : Must(hs, ps, p) /\ \A i \in DOMAIN got : got[i].p # p THEN {"missing"} ELSE {})
              \cup (IF \E i \in DOMAIN got : Known(hs, ps, got[i].p) /\ got[i].at + 5 < Least(hs, ps, got[i].p) THEN {"too early"} ELSE {})
              \cup (IF \E h \in DOMAIN hs : \E i \in 2..Len(To(h)) : To(h)[i].t - To(h)[i - 1].t + 5 < Tx(hs[h].recv, Bytes(To(h)[i])) THEN {"too fast"} ELSE {})))
\* every queue is empty when a packet is sent
CalmWrong(e) == IF \A p \in DOMAIN e.packets : \E i \in DOMAIN e.obs.got : e.obs.got[i].p = p /\ e.obs.got[i].intact THEN {} ELSE {"missing"}
\* several tries: at least what fits arrives in each; in some try no more than one more arrives
BurstWrong(e) == (IF \E i \in DOMAIN e.obs.counts : e.obs.counts[i] < Fits(e.hosts, e.packets) THEN {"missing"} ELSE {})
            \cup (IF \A i \in DOMAIN e.obs.counts : e.obs.counts[i] > Fits(e.hosts, e.packets) + 1 THEN {"no overflow"} ELSE {})
UnitWrong(e) == (IF e.obs.micros - ((e.bytes * 8000) \div e.kbps) \notin -1..1 THEN {"micros"} ELSE {})
           \cup (IF e.obs.bps # e.kbps * 1000 \/ e.obs.bits # e.bytes * 8 \/ e.obs.kbps # e.kbps \/ e.obs.least # (IF e.kbps < e.bytes THEN e.kbps ELSE e.bytes) THEN {"units"} ELSE {})
Wrong(e) == CASE e.ev = "Net" -> NetWrong(e)
              [] e.ev = "Burst" -> BurstWrong(e)
              [] e.ev = "Calm" -> CalmWrong(e)
              [] e.ev = "Unit" -> UnitWrong(e)
              [] e.ev = "Addr" -> IF e.obs.back # [ip |-> e.ip, port |-> e.port] THEN {"address"} ELSE {}
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
        CASE e.ev = "Reset" -> TRUE
          [] e.ev = "Panic" -> ReportPanic(l)
          [] OTHER -> LET w == Wrong(e) IN w = {} \/ ReportDiff(l, e.ev, w, [must |-> IF e.ev = "Net" THEN {p \in DOMAIN e.packets : Must(e.hosts, e.packets, p)} ELSE {}])
TraceSpec == l = 1 /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
