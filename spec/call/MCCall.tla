-------------------------------- MODULE MCCall --------------------------------
(* One device against an arbitrary application, network and media stack.      *)
EXTENDS Call, SequencesExt, TLC, Json
CONSTANTS Ids,        \* call ids
          Peers, Devs, \* other users and their devices
          Depth,      \* stimuli per behaviour
          Wide,       \* whether everything may happen, or only what an ordinary call is made of
          Few, Rare,  \* how seldom the rest happens in generated behaviours (0: any time)
          Menu,       \* the kinds of stimuli besides those of an ordinary call; empty: all
          Gen         \* whether stimuli are written out
VARIABLES m, o, hist, g, last
vars == <<m, o, hist, g, last>>

(******************************* the environment ***************************)
HangupKinds == {[h |-> "normal", hd |-> 0], [h |-> "accepted", hd |-> 1], [h |-> "accepted", hd |-> 2], [h |-> "declined", hd |-> 1],
                [h |-> "declined", hd |-> 2], [h |-> "busy", hd |-> 1], [h |-> "busy", hd |-> 2], [h |-> "permission", hd |-> 2]}
OnOff == {"", "on", "off"}
CallNow == IF m.active = 0 THEN NewCall(0, "", "", 0, "") ELSE m.calls[m.active]
Conns == DOMAIN CallNow.conns
OfferDev == IF m.active = 0 \/ CallNow.dir = "out" THEN Devs ELSE {CallNow.odev}
\* the ids met so far, and the next one
Met == g.met
Fresh == {i \in Ids : i \in Met \/ \A j \in Ids : j < i => j \in Met}
Sure(r, c) == m.active = c /\ CallNow.r = r

Calls == {[op |-> "call", r |-> r, c |-> c, v |-> "video"] : r \in Peers, c \in Ids \ Met}
Offers == {[op |-> "offer", r |-> r, c |-> c, v |-> "audio", d |-> d, age |-> 0] : r \in Peers, c \in Ids, d \in Devs}
StaleOffers == {[op |-> "offer", r |-> r, c |-> c, v |-> "video", d |-> 1, age |-> a] : r \in Peers, c \in Ids, a \in {60, 61}}
Proceeds == {[op |-> "proceed", c |-> m.active, m |-> x] : x \in {"normal", "low"}}
Accepts == {[op |-> "accept", c |-> m.active]}
Sents == IF m.flight THEN {[op |-> "sent", c |-> m.active]} ELSE {}
Answers == IF CallNow.dir = "out" THEN {[op |-> "answer", r |-> CallNow.r, c |-> m.active, d |-> d] : d \in Devs} ELSE {}
Ups == {[op |-> "up", d |-> d] : d \in Conns \ {0}}
Accs == IF CallNow.dir = "out"
          THEN {[op |-> "rtp", d |-> d, m |-> [id |-> m.active, acc |-> TRUE, h |-> "", hd |-> 0, ss |-> FALSE, v |-> "", s |-> "", a |-> "", rate |-> 0, seq |-> q]] : d \in Conns \ {0}, q \in (IF Gen THEN 0..2 ELSE {1})}
          ELSE {}
Ends == {[op |-> "hangup"], [op |-> "drop", c |-> m.active]}
Lates == {[op |-> "timeout"]}
Nearby == {c \in Ids : c = m.active} \union (IF m.active = 0 \/ Wide THEN Ids ELSE {})
Ices(K) == {[op |-> "ice", r |-> r, c |-> c, d |-> d, cands |-> k] : r \in Peers, c \in Nearby, d \in Devs, k \in K}
RHangups == {[op |-> "rhangup", r |-> r, c |-> c, d |-> d, h |-> k.h, hd |-> k.hd] : r \in Peers, c \in Nearby, d \in Devs, k \in HangupKinds}
Bursts == {[op |-> "burst", r |-> r, c |-> c, d |-> d, k |-> k] : r \in Peers, c \in Nearby, d \in Devs, k \in {2, 28, 29, 30, 31, 33}}
RBusys == IF CallNow.dir = "out" \/ Wide THEN {[op |-> "rbusy", r |-> r, c |-> c, d |-> d] : r \in Peers, c \in Nearby, d \in Devs} ELSE {}
\* every gathered candidate is different
Locals == {[op |-> "local", d |-> d, cand |-> (IF g.n % 5 = 4 THEN "-" ELSE "k") \o ToString(g.n + 1), force |-> f] : d \in Conns, f \in {FALSE}}
          \union {[op |-> "local", d |-> d, cand |-> "f" \o ToString(g.n), force |-> TRUE] : d \in Conns \ {0}}
Paths == {[op |-> x, d |-> d] : x \in {"down", "icefail"}, d \in Conns \ {0}} \union {[op |-> "down", d |-> d] : d \in Conns \ {0}}
Relays == {[op |-> "relay", d |-> d, on |-> a, remote |-> b] : d \in Conns \ {0}, a \in BOOLEAN, b \in BOOLEAN}
Statuses == {[op |-> "status", d |-> d, v |-> v, s |-> s, a |-> a] : d \in Conns \ {0}, v \in OnOff, s \in OnOff, a \in OnOff}
Modes == {[op |-> "mode", d |-> d, m |-> x] : d \in Conns \ {0}, x \in {"normal", "low"}}
RtpSS == {[op |-> "rtp", d |-> d, m |-> [id |-> i, acc |-> FALSE, h |-> "", hd |-> 0, ss |-> TRUE, v |-> v, s |-> s, a |-> a, rate |-> 0, seq |-> q]] :
            d \in Conns \ {0}, i \in Nearby, v \in OnOff, s \in (IF Gen THEN {"", "on"} ELSE {""}), a \in (IF Gen THEN OnOff ELSE {"", "off"}), q \in (IF Gen THEN 0..6 ELSE 1..2)}
RtpRate == {[op |-> "rtp", d |-> d, m |-> [id |-> i, acc |-> FALSE, h |-> "", hd |-> 0, ss |-> FALSE, v |-> "", s |-> "", a |-> "", rate |-> k, seq |-> q]] :
            d \in Conns \ {0}, i \in Nearby, k \in {1, 400, 900, 1500, 5000}, q \in 0..4}
RtpBoth == IF CallNow.dir = "in" THEN {} ELSE
           {[op |-> "rtp", d |-> d, m |-> [id |-> m.active, acc |-> TRUE, h |-> "", hd |-> 0, ss |-> TRUE, v |-> v, s |-> "off", a |-> a, rate |-> k, seq |-> q]] :
            d \in Conns \ {0}, v \in {"on", "off"}, a \in {"on", "off"}, k \in {0, 700}, q \in 1..3}
RtpHangup == {[op |-> "rtp", d |-> d, m |-> [id |-> i, acc |-> FALSE, h |-> k.h, hd |-> k.hd, ss |-> FALSE, v |-> "", s |-> "", a |-> "", rate |-> 0, seq |-> 0]] :
            d \in Conns \ {0}, i \in Nearby, k \in HangupKinds}
RtpAlien == {[op |-> "rtp", d |-> d, m |-> [id |-> i, acc |-> TRUE, h |-> "", hd |-> 0, ss |-> FALSE, v |-> "", s |-> "", a |-> "", rate |-> 0, seq |-> 0]] :
            d \in Conns \ {0}, i \in Ids}
Faileds == IF m.flight THEN {[op |-> "failed", c |-> c] : c \in {m.active} \union (IF Wide THEN Ids ELSE {})} ELSE {}
Resets == {[op |-> "reset"]}
Faults == {[op |-> "fault", f |-> f] : f \in {"start", "create", "offer", "answer", "ice", "hangup", "busy", "connect"} \ m.faults}
Strays == {[op |-> "sent", c |-> 1], [op |-> "proceed", c |-> 7, m |-> "normal"], [op |-> "accept", c |-> 7], [op |-> "drop", c |-> 7], [op |-> "hangup"]}

(********************************** steps ***********************************)
(* What an onlooker knows, from what the device was asked and what it showed:                   *)
(*   n       stimuli so far, met: call ids met                                                  *)
(*   open    calls that have begun and not ended, over: those that have ended                   *)
(*   yes     calls accepted (by the user, or as the callee said)                                *)
(*   path    calls that have had a path, rang: calls that have rung                             *)
(*   off     calls whose offer was sent                                                         *)
(*   gone    offers handed over after their call's end                                          *)
(*   due     candidates gathered and not sent, of the call at hand                              *)
(*   hi      the newest status received on each connection of it, told: the last announced      *)
(*   live    whether media flows                                                                *)
(*   out     messages handed over and not reported on                                           *)
Fields == {"v", "s", "a"}
Unsaid == [f \in Fields |-> ""]
G0 == [n |-> 0, met |-> {}, open |-> {}, yes |-> {}, path |-> {}, off |-> {}, due |-> {}, hi |-> << >>, told |-> Unsaid, live |-> FALSE, out |-> 0]
Refusals == {"ReceivedOfferWhileActive", "ReceivedOfferWithGlare", "GlareHandlingFailure"}
RECURSIVE Follow(_, _)
(* acc: [open, ok] *)
Follow(acc, s) ==
  IF s = <<>> THEN acc
  ELSE LET x == Head(s)
           ok == CASE x.e = "start" -> acc.open = {}          \* one call at a time
                   [] x.e = "event" /\ x.a \notin Refusals -> x.c \in acc.open
                   [] x.e = "event" -> TRUE
                   [] x.e = "ended" -> x.c \in acc.open \/ acc.refused
                   [] OTHER -> TRUE
           open == CASE x.e = "start" -> acc.open \union {x.c}
                     [] x.e = "ended" /\ ~acc.refused -> acc.open \ {x.c}
                     [] OTHER -> acc.open
       IN Follow([acc EXCEPT !.open = open, !.ok = @ /\ ok], Tail(s))
(* a call asked for while the device is busy is ended without having begun *)
Refused(op) == op.op = "call" /\ m.busy /\ ~Mine(World(m), op)
Followed(op, W) == Follow([open |-> g.open, ok |-> TRUE, refused |-> Refused(op)], W.o.life)
OpenNow(op, W) == IF op.op = "reset" THEN {} ELSE Followed(op, W).open
SetOf(s) == {s[i] : i \in DOMAIN s}
Begun(W) == {x.c : x \in {y \in SetOf(W.o.life) : y.e = "start"}}
EndedIn(W) == {x.c : x \in {y \in SetOf(W.o.life) : y.e = "ended"}}
Successes(W) == Len(W.o.send) - Cardinality((m.faults \ W.m.faults) \ {"start", "create", "connect"})
SentOf(W, t) == {x \in SetOf(W.o.send) : x.t = t}
OnConnOf(W, op) == m.active # 0 /\ "d" \in DOMAIN op /\ (m.active # 0 => op.d \in DOMAIN m.calls[m.active].conns)
Onlook(op, W) ==
  LET c == W.m.active
      same == c # 0 /\ c = m.active /\ c \notin Begun(W)
      new == Begun(W)
      accepts == {x \in {m.active} : (op.op = "accept" /\ op.c = x) \/ (op.op = "rtp" /\ OnConnOf(W, op) /\ op.m.acc /\ op.m.id = x)}
      conn == OnConnOf(W, op)
      mine == conn /\ op.op = "rtp" /\ (op.op = "rtp" => op.m.ss /\ op.m.id = m.active /\ op.m.seq > 0)
      old == IF conn /\ op.d \in DOMAIN g.hi THEN g.hi[op.d].seq ELSE 0
      taken == IF conn /\ op.op = "local" /\ (op.op = "local" => op.force \/ m.calls[m.active].conns[op.d].kind # "child") THEN {op.cand} ELSE {}
      given == UNION {SetOf(x.cands) : x \in SentOf(W, "ice")}
      RECURSIVE Say(_, _)
      Say(t, s) == IF s = <<>> THEN t
                   ELSE Say([t EXCEPT ![CASE Head(s).a \in {"RemoteVideoEnable", "RemoteVideoDisable"} -> "v"
                                          [] Head(s).a \in {"RemoteAudioEnable", "RemoteAudioDisable"} -> "a"
                                          [] OTHER -> "s"] =
                        IF Head(s).a \in {"RemoteVideoEnable", "RemoteAudioEnable", "RemoteSharingScreenEnable"} THEN "on" ELSE "off"], Tail(s))
  IN [n |-> IF Gen \/ op.op = "local" THEN g.n + 1 ELSE g.n, met |-> g.met \union (IF op.op \in {"call", "offer"} THEN {op.c} ELSE {}),
      open |-> OpenNow(op, W),
      yes |-> IF same THEN g.yes \union accepts ELSE IF new = {} THEN g.yes \intersect {c} ELSE {},
      path |-> IF same THEN g.path \union (IF op.op = "up" /\ conn THEN {c} ELSE {}) ELSE {},
      off |-> (g.off \ new) \union {x.c : x \in SentOf(W, "offer")},
      due |-> IF same THEN (g.due \union taken) \ given ELSE {},
      hi |-> IF ~same THEN << >> ELSE IF mine /\ (mine => op.m.seq > old) THEN Put(g.hi, op.d, [seq |-> op.m.seq, v |-> op.m.v, s |-> op.m.s, a |-> op.m.a]) ELSE g.hi,
      told |-> IF same THEN Say(g.told, W.o.stat) ELSE Unsaid,
      live |-> (same /\ g.live) \/ (same /\ \E x \in SetOf(W.o.media) : x.e = "connect"),
      out |-> LET k == g.out + Successes(W) - (IF op.op \in {"sent", "failed"} /\ g.out > 0 THEN 1 ELSE 0) IN IF k > 3 THEN 3 ELSE k]

Take(op) ==
  /\ Gen => Len(hist) < Depth
  /\ \E W \in (IF Gen THEN {Step(m, op)} ELSE Steps(m, op)) :
       /\ m' = W.m /\ o' = W.o /\ g' = Onlook(op, W)
       /\ hist' = IF Gen THEN Append(hist, op) ELSE <<>>
       /\ last' = op

Init == m = M0 /\ o = O0 /\ hist = <<>> /\ g = G0 /\ last = [op |-> "none"]
Pick(S) == \E op \in S : Take(op)
Finish == Gen /\ Len(hist) = Depth /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<m, o, g, last>>

P1 == m.active # 0 /\ ~CallNow.ctx /\ Pick(Proceeds)
P2 == m.active # 0 /\ CallNow.fsm = "connedBA" /\ CallNow.dir = "in" /\ Pick(Accepts)
P3 == m.active # 0 /\ CallNow.fsm \in {"connBA", "connedBA"} /\ Pick(Answers)
P4 == m.active # 0 /\ Pick({u \in Ups : CallNow.conns[u.d].st \in {"connBA", "connAA", "reconAA"}})
P5 == m.active # 0 /\ CallNow.fsm \in {"connBA", "connedBA"} /\ Pick(Accs)
P6 == Pick(Sents)
P7 == m.active = 0 /\ Pick(Calls \union Offers)
N1 == Pick(Ices({<<"a">>, <<"a", "b">>, <<"-5">>, <<"c", "-6">>}))
N2 == Pick(RHangups)
N3 == Pick(RBusys)
N4 == m.active # 0 /\ Pick(Locals)
N5 == m.active # 0 /\ Pick(Paths)
N6 == m.active # 0 /\ Pick(Relays)
N7 == m.active # 0 /\ Pick(Statuses)
N8 == m.active # 0 /\ Pick(Modes)
N9 == m.active # 0 /\ Pick(RtpSS)
N10 == m.active # 0 /\ Pick(RtpRate)
N11 == m.active # 0 /\ Pick(RtpBoth)
N12 == m.active # 0 /\ Pick(RtpHangup)
N13 == Pick(Faileds)
N14 == Pick(Resets)
N15 == Pick(Faults)
N16 == Pick(Strays \ {[op |-> "hangup"]})
N17 == m.active # 0 /\ Pick(Ends)
N18 == m.active # 0 /\ Pick(Lates)
N19 == Pick(Offers)
N20 == Pick(StaleOffers)
N21 == Pick(Calls)
N22 == m.active # 0 /\ Pick(Accepts)
N23 == m.active # 0 /\ Pick(Answers)
N24 == m.active # 0 /\ Pick(Ups)
N25 == m.active # 0 /\ Pick(RtpAlien)
N26 == m.active # 0 /\ Pick(Proceeds)
\* (not for a call that the first of them ends: the others race with its end)
N27 == Menu # {} /\ Pick({b \in Bursts : b.c # m.active \/ (CallNow.dir = "in" /\ CallNow.fsm = "wait")})
\* in generated behaviours what helps a call along comes more often than the rest
May(n, k) == IF Menu # {} /\ n \notin Menu THEN FALSE ELSE IF k = 0 THEN TRUE ELSE Len(hist) % k = k - 1
Next == P1 \/ P2 \/ P3 \/ P4 \/ P5 \/ P6 \/ P7 \/ (May(16, 0) /\ N16)
        \/ (May(1, Few) /\ N1) \/ (May(4, Few) /\ N4) \/ (May(5, Few) /\ N5) \/ (May(6, Few) /\ N6) \/ (May(7, Few) /\ N7) \/ (May(8, Few) /\ N8) \/ (May(9, Few) /\ N9)
        \/ (May(10, Few) /\ N10) \/ (May(11, Few) /\ N11) \/ (May(19, Few) /\ N19) \/ (May(20, Few) /\ N20) \/ (May(21, Few) /\ N21) \/ (May(22, Few) /\ N22)
        \/ (May(23, Few) /\ N23) \/ (May(24, Few) /\ N24)
        \/ (May(2, Rare) /\ N2) \/ (May(3, Rare) /\ N3) \/ (May(12, Rare) /\ N12) \/ (May(13, Rare) /\ N13) \/ (May(14, Rare) /\ N14) \/ (May(15, Rare) /\ N15)
        \/ (May(17, Rare) /\ N17) \/ (May(18, Rare) /\ N18) \/ (May(25, Rare) /\ N25) \/ (May(26, Rare) /\ N26)
        \/ (May(27, Rare) /\ N27) \/ Finish
Spec == Init /\ [][Next]_vars
Short == Gen \/ TLCGet("level") <= Depth
View == IF Gen THEN <<vars>> ELSE <<m, g>>

(******************************* the properties *****************************)
Now == [m |-> m', o |-> o']
Started == Begun(Now)
Over == EndedIn(Now)
(* C01: one call at a time; a second is refused or given way to *)
OneCall == Followed(last', Now).ok /\ g'.open = DOMAIN m'.calls /\ Cardinality(g'.open) <= 1
Refuses ==
  (last'.op = "offer" /\ m.active # 0 /\ m.active \in DOMAIN m'.calls /\ last'.c \notin Started /\ last'.age <= MaxAge /\ last'.c # m.active)
    => \/ \E x \in SetOf(o'.life) : x.c = last'.c /\ x.a = "ReceivedOfferWithGlare"
       \/ /\ \E x \in SetOf(o'.life) : x.c = last'.c /\ x.a = "ReceivedOfferWhileActive"
          /\ \E x \in SetOf(o'.send) \union SetOf(m'.queue) : x.t = "busy" /\ x.c = last'.c
\* somebody else's offer never disturbs a call
Undisturbed == (last'.op = "offer" /\ m.active # 0 /\ m.faults = {} /\ (m.active # 0 => m.calls[m.active].r # last'.r)) \/ (last'.op = "call" /\ m.active # 0 /\ last'.c # m.active) => m'.calls = m.calls
(* C02: a call ends once, and whatever takes the call away says so *)
EndsOnce == \A c \in DOMAIN m.calls : (c \notin DOMAIN m'.calls \/ c \in Started) => (last'.op = "reset" \/ Cardinality({i \in DOMAIN o'.life : o'.life[i].c = c /\ o'.life[i].e = "ended"}) = 1)
Disconnects == \A c \in DOMAIN m.calls : c \in Over =>
   (\E i \in DOMAIN o'.media : o'.media[i] = [e |-> "disconnect", c |-> c]) = (m.calls[c].ctx \/ last'.op = "proceed")
(* C05: nothing is played or sent before the call is accepted, and a path has existed *)
MediaAfterAccept == g'.live => g'.open \subseteq g'.yes \intersect g'.path
OnlyTalking == \A c \in DOMAIN m'.calls : \A d \in DOMAIN m'.calls[c].conns : m'.calls[c].conns[d].talk => c \in g'.yes /\ d = m'.calls[c].adev /\ Active(m'.calls[c].fsm)
AcceptedTold == \A x \in SetOf(o'.life) : x.a \in {"LocalAccepted", "RemoteAccepted"} => x.c \in g'.yes \intersect g'.path
(* C06: an unaccepted call ends when its time is up, an accepted one does not *)
TimesOut == last'.op = "timeout" /\ m.active # 0 =>
   IF Active(m.calls[m.active].fsm) THEN m' = m /\ o' = O0
   ELSE m'.active = 0 /\ \E x \in SetOf(o'.life) : x.c = m.active /\ x.e = "ended" /\ x.a = "Timeout"
(* C07: the remote status shown is the newest one received *)
StatusNow ==
  \A c \in DOMAIN m'.calls : LET x == m'.calls[c] IN
    (Active(x.fsm) /\ x.adev \in DOMAIN g'.hi /\ x.conns[x.adev].st \in {"connedAA", "reconAA"}) =>
       \A f \in Fields : g'.hi[x.adev][f] # "" => g'.told[f] = g'.hi[x.adev][f]
StatusQuiet == o'.stat # <<>> => \A c \in DOMAIN m'.calls : c \in g'.yes \intersect g'.path
(* C08: who was offered a call that ends here is told; no offer is sent for a call that is over *)
HereReasons == {"LocalHangup", "Timeout", "InternalFailure", "ConnectionFailure", "SignalingFailure", "RemoteGlare"}
StopsRinging ==
  \A x \in SetOf(o'.life) : (x.e = "ended" /\ x.a \in HereReasons /\ x.c \in g.off /\ x.c \in g.open /\ x.c \in DOMAIN m.calls /\ ~(\E f \in {"offer", "hangup", "ice", "busy", "answer"} : Faulty(World(m), f)))
     => m.calls[x.c].dir = "in" \/ (\E y \in SetOf(o'.send) \union SetOf(m'.queue) : y.t = "hangup" /\ y.c = x.c)
NoLateOffer == \A i \in DOMAIN m'.queue : m'.queue[i].t \notin {"busy", "hangup"} => m'.queue[i].c \in DOMAIN m'.calls
NoStrayOffer == \A x \in SetOf(o'.send) : x.t \in {"offer", "answer", "ice"} => x.c \in g.open \union Started
(* S02: one message at a time, in order, and every candidate once *)
OneInFlight == /\ m.flight /\ last'.op \notin {"sent", "failed", "reset"} /\ Started = {} => o'.send = <<>>
               /\ Started = {} /\ last'.op # "reset" => Successes(Now) <= 1
               /\ m'.queue # <<>> => m'.flight \/ g'.out > 0
CandidatesOnce == /\ \A x, y \in SentOf(Now, "ice") : x # y => SetOf(x.cands) \intersect SetOf(y.cands) = {}
                  /\ \A x \in SentOf(Now, "ice") : x.c = m.active /\ m.active \in g'.open => SetOf(x.cands) \subseteq g.due \union (IF last'.op = "local" THEN {last'.cand} ELSE {})
                  /\ (~m'.flight /\ m'.active # 0 /\ ~(\E f \in {"offer", "hangup", "ice", "busy", "answer"} : Faulty(World(m), f))) => g'.due = {}
(* what was waiting leaves in the order it came *)
IsPrefix2(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
FirstOut == last'.op = "sent" /\ m.queue # <<>> /\ o'.send # <<>> /\ o'.send[1].t # "ice" => o'.send[1].t = m.queue[CHOOSE i \in DOMAIN m.queue : ~(\E j \in 1..(i - 1) : m.queue[j].t # "ice") /\ m.queue[i].t # "ice"].t
(* S03: what arrives before its offer counts as if it had arrived after it *)
Early(op) == {[op |-> "ice", r |-> op.r, c |-> op.c, d |-> op.d, cands |-> <<"a">>]}
             \union {[op |-> "rhangup", r |-> op.r, c |-> op.c, d |-> op.d, h |-> k.h, hd |-> k.hd] : k \in HangupKinds}
Same(a, b) == [a EXCEPT !.pend = NoPend, !.queue = <<>>] = [b EXCEPT !.pend = NoPend, !.queue = <<>>]
EitherOrder ==
  m.active = 0 => \A op \in {[op |-> "offer", r |-> "p", c |-> 1, v |-> "audio", d |-> d, age |-> 0] : d \in Devs} : \A e \in Early(op) :
     (m.pend.k = "none" \/ (m.pend.c = 1 /\ m.pend.r = "p" /\ m.pend.k = "ice" /\ e.op = "ice")) =>
       LET a == Step(Step(m, e).m, op)
           b == Step(Step(m, op).m, e)
       IN Same(a.m, b.m) /\ {x \in SetOf(a.o.life) : x.e = "ended"} = {x \in SetOf(b.o.life) : x.e = "ended"}

PC01 == [][OneCall /\ Refuses /\ Undisturbed]_vars
PC02 == [][EndsOnce /\ Disconnects]_vars
PC05 == [][MediaAfterAccept /\ OnlyTalking /\ AcceptedTold]_vars
PC06 == [][TimesOut]_vars
PC07 == [][StatusNow /\ StatusQuiet]_vars
PC08 == [][StopsRinging /\ NoLateOffer /\ NoStrayOffer]_vars
PS02 == [][OneInFlight /\ CandidatesOnce /\ FirstOut]_vars
IS03 == EitherOrder
Emit == Gen /\ Len(hist) = Depth + 1 => PrintT("SCRIPT " \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
