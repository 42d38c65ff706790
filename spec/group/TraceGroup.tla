------------------------------ MODULE TraceGroup -----------------------------
EXTENDS GroupOps, TraceKit
VARIABLES s, l, bad
tvars == <<s, l, bad>>

\* what periodic work may put on the wire
Periodic(t) ==
  (IF Beating(t) /\ t.join = "Joined" THEN {HbItem(t)} ELSE {})
  \cup (IF Beating(t) /\ In(t) /\ t.vreq.on THEN {VideoItem(t)} ELSE {})
  \cup (IF t.began /\ In(t) /\ t.hands.out THEN {RaiseItem(t)} ELSE {})
RECURSIVE Within(_, _, _)
Within(got, want, may) ==
  IF got = <<>> THEN want = <<>>
  ELSE IF want # <<>> /\ Head(got) = Head(want) THEN Within(Tail(got), Tail(want), may)
  ELSE Head(got) \in may /\ Within(Tail(got), want, may)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
WireOk(e, t, u, q) ==
  /\ Within(q, u.o.wire, Periodic(t) \cup Periodic(u))
  /\ e.ev = "Wait" /\ ~t.gone => \A x \in Periodic(t) \cap Periodic(u) : Count(q, x) >= 2
Letters(q) == [i \in DOMAIN q |-> [h |-> q[i].head, g |-> Els(q[i].group), t |-> Els(q[i].to)]]
KeysOf(t) == [i \in DOMAIN t.o.keys |-> LET x == t.o.keys[i] IN [h |-> <<x.lin, x.rc>>, g |-> x.group, t |-> x.to]]
ByeOf(t) == [i \in DOMAIN t.o.bye |-> LET x == t.o.bye[i] IN [h |-> "bye", g |-> x.group, t |-> x.to]]
Shown(q) == [i \in DOMAIN q |-> IF q[i][1] = "show" THEN <<"show", Els(q[i][2]), q[i][3], q[i][4], q[i][5]>> ELSE q[i]]
Res(t, e) == CASE e.ev = "Frame" -> <<t.cur.l, t.cur.rc>> [] e.ev = "FrameIn" -> Heard(t, e.d, e.k) [] OTHER -> "ok"

\* heads of what waits to be handed to the application
Prefix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
Bad(e, t, u) ==
  LET o == e.obs.o
      is == [life |-> o.life = u.o.life, ring |-> o.ring = u.o.ring, bye |-> Letters(o.bye) = ByeOf(u), keys |-> Letters(o.keys) = KeysOf(u),
             devs |-> o.devs = u.o.devs, peeks |-> Shown(o.peeks) = u.o.peeks, rates |-> o.rates = u.o.rates, hands |-> o.hands = u.o.hands,
             muted |-> o.muted = u.o.muted, wire |-> WireOk(e, t, u, o.wire), busy |-> e.obs.busy = u.busy,
             frame |-> e.obs.res = Res(u, e),
             reacts |-> Prefix(o.reacts, u.reacts) /\ (e.ev = "Wait" /\ u.began /\ ~t.gone => o.reacts = u.reacts),
             mutes |-> /\ Prefix(o.mutes, IF u.mute = 0 THEN <<>> ELSE <<u.mute>>)
                       /\ e.ev = "Wait" /\ u.began /\ ~t.gone /\ u.mute # 0 => o.mutes = <<u.mute>>]
  IN {f \in DOMAIN is : f \in Relevant(e.ev) /\ ~is[f]}
After(e, u) ==
  [u EXCEPT !.reacts = IF Len(e.obs.o.reacts) > Len(@) THEN <<>> ELSE SubSeq(@, Len(e.obs.o.reacts) + 1, Len(@)),
            !.mute = IF e.obs.o.mutes # <<>> THEN 0 ELSE @]
Start(e) == Soon(Fresh(e.kind))
TraceInit == l = 1 /\ bad = FALSE /\ s = Fresh("group")
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l]
         u == IF e.ev = "Reset" THEN Start(e) ELSE Do(s, e)
         t == IF e.ev = "Reset" THEN u ELSE s
     IN IF bad /\ e.ev # "Reset" THEN UNCHANGED <<s, bad>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED s
        ELSE /\ s' = After(e, u)
             /\ IF Bad(e, t, u) = {} THEN bad' = FALSE
                ELSE ReportDiff(l, e.ev, Bad(e, t, u), [o |-> u.o, busy |-> u.busy, res |-> Res(u, e), reacts |-> u.reacts, mute |-> u.mute]) /\ bad' = TRUE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
