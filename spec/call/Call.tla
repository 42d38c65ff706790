-------------------------------- MODULE Call --------------------------------
(***************************************************************************)
(* 1:1 calls as one device's call manager runs them (core::call_manager,   *)
(* core::call, core::call_fsm, core::connection, core::connection_fsm).    *)
(*                                                                         *)
(* The device is a function: Step(m, op) is the manager after the stimulus *)
(* op (an application call, a received message, an event of the media      *)
(* stack), run until nothing is left to do, and what it made the           *)
(* application see meanwhile.                                              *)
(*                                                                         *)
(* m: active   the id of the active call, 0 if none                        *)
(*    busy     whether the device refuses other calls                      *)
(*    calls    id -> call, only for calls that have not ended              *)
(*    queue    signaling messages waiting, flight whether one is being     *)
(*             sent, last the kind of the last one                         *)
(*    pend     what arrived for an offer not seen yet                      *)
(*    bufs     local candidates gathered but not sent, per connection      *)
(*    faults   callbacks that will fail the next time they are used        *)
(*    self     this device's number                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxAge == 60
MaxPending == 30

NoPend == [k |-> "none", r |-> "", c |-> 0, l |-> <<>>]
M0 == [active |-> 0, busy |-> FALSE, calls |-> << >>, queue |-> <<>>, flight |-> FALSE, last |-> "",
       pend |-> NoPend, bufs |-> <<>>, faults |-> {}, self |-> 1]
O0 == [life |-> <<>>, stat |-> <<>>, send |-> <<>>, rtp |-> <<>>, rh |-> {}, media |-> <<>>, route |-> <<>>, ice |-> <<>>]

Rtp0 == [acc |-> FALSE, h |-> "", hd |-> 0, v |-> "", s |-> "", a |-> "", rate |-> 0]
ModeRate(mode) == IF mode = "low" THEN 300 ELSE 2000
RelayRate == 1000
MinRate == 30
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Put(f, k, v) == [x \in (DOMAIN f) \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f

(* a world: the manager and what was seen during this step *)
World(m) == [m |-> m, o |-> O0]
CallOf(W, c) == W.m.calls[c]
SetCall(W, c, x) == [W EXCEPT !.m.calls = Put(@, c, x)]
ConnOf(W, c, d) == W.m.calls[c].conns[d]
SetConn(W, c, d, x) == [W EXCEPT !.m.calls[c].conns = Put(@, d, x)]
Life(W, r, c, e, a) == [W EXCEPT !.o.life = Append(@, [c |-> c, r |-> r, e |-> e, a |-> a, v |-> ""])]
Event(W, c, a) == Life(W, CallOf(W, c).r, c, "event", a)
Faulty(W, f) == f \in W.m.faults
Spent(W, f) == [W EXCEPT !.m.faults = @ \ {f}]

Active(fsm) == fsm \in {"connedAA", "reconAA"}
Accepted(fsm) == fsm \in {"connAA", "connedAA", "reconAA"}
Talking(fsm) == fsm \in {"connedBA", "connedAA", "reconAA"}
Settling(fsm) == fsm \in {"wait", "connBA", "connedBA"}
Alive(st) == st \in {"connBA", "connAA", "connedBA", "connedAA", "reconAA"}

HangupOnFailure(x) == IF x.dir = "in" THEN Accepted(x.fsm) ELSE TRUE
MayHangup(x) == x.dir = "in" \/ x.offered

NewCall(c, r, dir, dev, media) ==
  [id |-> c, r |-> r, dir |-> dir, video |-> media, fsm |-> "new", ctx |-> FALSE, adev |-> 0, odev |-> dev, held |-> <<>>,
   offered |-> FALSE, rang |-> FALSE, conns |-> << >>]
NewConn(k, kind, mode) ==
  [k |-> k, kind |-> kind, st |-> "connBA", stream |-> FALSE, acc |-> Rtp0, ss |-> [seq |-> 0, v |-> "", s |-> "", a |-> ""],
   rs |-> [seq |-> 0, rate |-> 0], rmax |-> 0, mode |-> mode, relay |-> FALSE, talk |-> FALSE]
MaxRate(x) ==
  LET a == ModeRate(x.mode)
      b == IF x.rmax = 0 THEN a ELSE Min2(a, x.rmax)
  IN Max2(IF x.relay THEN Min2(b, RelayRate) ELSE b, MinRate)

RtpHangups(W, c, D, h, hd) == [W EXCEPT !.o.rh = @ \union {[c |-> c, d |-> d, h |-> h, hd |-> hd] : d \in D}]

(*************************** outgoing signaling ***************************)
RECURSIVE SendNext(_)
RECURSIVE Terminate(_, _, _, _)
Keep(x, c) == x.c # c \/ x.t \in {"busy", "hangup"}
Push(W, x) == SendNext([W EXCEPT !.m.queue = Append(@, x)])
RECURSIVE PushAll(_, _)
PushAll(W, l) == IF l = <<>> THEN W ELSE PushAll(Push(W, Head(l)), Tail(l))
Message(c, r, t, to, h, hd, k) == [c |-> c, r |-> r, t |-> t, to |-> to, h |-> h, hd |-> hd, k |-> k]
Hangup(W, c, r, h, hd) == Push(W, Message(c, r, "hangup", 0, h, hd, 0))

TermActive(W, hang, reason) ==
  IF W.m.active = 0 THEN W
  ELSE Terminate([W EXCEPT !.m.active = 0, !.m.busy = FALSE], W.m.active, hang, reason)
Fail(W, c, reason) ==
  IF W.m.active # c \/ c = 0 THEN W
  ELSE TermActive(W, IF HangupOnFailure(CallOf(W, c)) THEN "normal" ELSE "", reason)

SendNext(W) ==
  IF W.m.flight \/ W.m.queue = <<>> THEN W
  ELSE LET x == Head(W.m.queue)
           W1 == [W EXCEPT !.m.queue = Tail(@)]
           cands == IF x.t = "ice" THEN W.m.bufs[x.k] ELSE <<>>
           W2 == IF x.t = "ice" THEN [W1 EXCEPT !.m.bufs[x.k] = <<>>] ELSE W1
           W3 == [W2 EXCEPT !.o.send = Append(@, [c |-> x.c, r |-> x.r, t |-> x.t, to |-> x.to, h |-> x.h, hd |-> x.hd, cands |-> cands])]
       IN IF x.t = "ice" /\ cands = <<>> THEN SendNext([W1 EXCEPT !.m.last = "ice"])
          ELSE IF Faulty(W, x.t) THEN SendNext(Fail(Spent(W3, x.t), x.c, "InternalFailure"))
          ELSE LET W4 == IF x.t = "offer" /\ Has(W3.m.calls, x.c) THEN [W3 EXCEPT !.m.calls[x.c].offered = TRUE] ELSE W3
               IN [W4 EXCEPT !.m.flight = TRUE, !.m.last = x.t]

(******************************** the end *********************************)
(* h: the hangup to send, "" for none; reason "" for none *)
Terminate(W, c, h, reason) ==
  LET x == CallOf(W, c)
      W1 == [W EXCEPT !.m.queue = SelectSeq(@, LAMBDA q : Keep(q, c))]
      W2 == IF reason = "" THEN W1 ELSE Life(W1, x.r, c, "ended", reason)
      W3 == IF h = "" THEN W2 ELSE RtpHangups(W2, c, DOMAIN x.conns, h, 0)
      W4 == IF x.ctx THEN [W3 EXCEPT !.o.media = Append(@, [e |-> "disconnect", c |-> c])] ELSE W3
      W5 == [W4 EXCEPT !.m.calls = Drop(@, c)]
  IN IF h # "" /\ MayHangup(x) THEN Hangup(W5, c, x.r, h, 0) ELSE W5

(****************************** call progress *****************************)
Start(W, c) ==
  LET x == CallOf(W, c)
      W1 == [SetCall(W, c, [x EXCEPT !.fsm = "wait"]) EXCEPT
               !.o.life = Append(@, [c |-> c, r |-> x.r, e |-> "start", a |-> x.dir, v |-> x.video])]
  IN IF Faulty(W, "start") THEN Spent(W1, "start") ELSE W1   \* the application may still proceed

(* the new call c takes the device *)
Occupy(W, c, x) == [W EXCEPT !.m.calls = Put(@, c, x), !.m.active = c, !.m.busy = TRUE, !.m.flight = FALSE]

(* candidates reach the media stack of a connection *)
Feed(W, c, d, cands) ==
  IF cands = <<>> THEN W ELSE [W EXCEPT !.o.ice = Append(@, [c |-> c, d |-> d, cands |-> cands])]
RECURSIVE FeedAll(_, _, _, _)
FeedAll(W, c, d, held) == IF held = <<>> THEN W ELSE FeedAll(Feed(W, c, d, Head(held)), c, d, Tail(held))

AddConn(W, c, d, kind, mode) ==
  LET k == Len(W.m.bufs) + 1
  IN SetConn([W EXCEPT !.m.bufs = Append(@, <<>>)], c, d, NewConn(k, kind, mode))

Proceed(W, c, mode) ==
  LET x == CallOf(W, c)
      W1 == SetCall(W, c, [x EXCEPT !.ctx = TRUE, !.fsm = "connBA"])
      d == IF x.dir = "in" THEN x.odev ELSE 0
  IN IF x.ctx THEN Fail(W, c, "InternalFailure")
     ELSE IF x.fsm # "wait" THEN SetCall(W, c, [x EXCEPT !.ctx = TRUE])
     ELSE IF Faulty(W, "create") THEN Fail(Spent(W1, "create"), c, "InternalFailure")
     ELSE IF x.dir = "out" THEN
       Push(AddConn(W1, c, 0, "parent", mode), Message(c, x.r, "offer", 0, x.video, 0, 0))
     ELSE LET W2 == AddConn(W1, c, d, "in", mode)
              W3 == FeedAll(SetCall(W2, c, [CallOf(W2, c) EXCEPT !.adev = d, !.held = <<>>]), c, d, x.held)
          IN Push(W3, Message(c, x.r, "answer", d, "", 0, 0))

StatusEvents(W, c, d, s) ==
  LET x == CallOf(W, c)
      E(v, n) == IF v = "" THEN <<>> ELSE <<[c |-> c, a |-> n \o (IF v = "on" THEN "Enable" ELSE "Disable")]>>
  IN IF ~Has(W.m.calls, c) THEN W
     ELSE IF ~Active(x.fsm) \/ x.adev # d THEN W
     ELSE [W EXCEPT !.o.stat = @ \o E(s.v, "RemoteVideo") \o E(s.s, "RemoteSharingScreen") \o E(s.a, "RemoteAudio")]

SendRtp(W, c, d, acc) ==
  [SetConn(W, c, d, [ConnOf(W, c, d) EXCEPT !.acc = acc]) EXCEPT !.o.rtp = Append(@, [c |-> c, d |-> d, m |-> acc])]

(* media may flow on connection d of call c *)
Enable(W, c, d) ==
  LET x == ConnOf(W, c, d)
  IN IF ~x.stream THEN Fail(W, c, "InternalFailure")
     ELSE LET W1 == SetConn([W EXCEPT !.o.media = Append(@, [e |-> "connect", c |-> c])], c, d, [x EXCEPT !.talk = TRUE])
          IN IF Faulty(W, "connect") THEN Fail(Spent(W1, "connect"), c, "InternalFailure") ELSE W1

AcceptRemotely(W, c, d) ==
  LET W1 == IF Has(W.m.calls, c) THEN Enable(W, c, d) ELSE W
  IN IF ~Has(W1.m.calls, c) THEN W1
     ELSE [Event(W1, c, "RemoteAccepted") EXCEPT !.o.route = Append(@, [r |-> CallOf(W1, c).r, a |-> ConnOf(W1, c, d).relay])]

(* some device accepted: the others are told so and let go *)
Settle(W, c, d) ==
  LET x == CallOf(W, c)
      others == DOMAIN x.conns \ {d}
      W1 == RtpHangups(W, c, others, "accepted", d)
      W2 == SetCall(W1, c, [x EXCEPT !.adev = d, !.conns = [e \in (DOMAIN x.conns) \intersect {0, d} |-> x.conns[e]]])
  IN Hangup(W2, c, x.r, "accepted", d)

Ring(W, c) ==
  IF CallOf(W, c).rang THEN W
  ELSE SetCall(Event(W, c, "RemoteRinging"), c, [CallOf(W, c) EXCEPT !.rang = TRUE])
Fsm(W, c, s) == SetCall(W, c, [CallOf(W, c) EXCEPT !.fsm = s])

(* the call learns that connection d is now in the state it is in *)
Changed(W, c, d) ==
  LET x == CallOf(W, c)
      st == ConnOf(W, c, d).st
  IN CASE x.fsm = "connBA" /\ st = "connedBA" /\ x.dir = "in" -> Event(Fsm(W, c, "connedBA"), c, "LocalRinging")
       [] x.fsm = "connBA" /\ st = "connedBA" /\ x.dir = "out" -> Ring(Fsm(W, c, "connedBA"), c)
       [] x.fsm \in {"connBA", "connedBA"} /\ st = "connAA" /\ x.dir = "out" -> Settle(Fsm(W, c, "connAA"), c, d)
       [] x.fsm = "connAA" /\ st = "connedAA" /\ x.dir = "out" /\ x.adev = d -> AcceptRemotely(Ring(Fsm(W, c, "connedAA"), c), c, d)
       [] x.fsm = "connedBA" /\ st = "connedAA" /\ x.dir = "out" -> AcceptRemotely(Settle(Fsm(W, c, "connedAA"), c, d), c, d)
       [] x.fsm = "connedAA" /\ st = "reconAA" /\ x.adev = d -> Event(Fsm(W, c, "reconAA"), c, "Reconnecting")
       [] x.fsm = "reconAA" /\ st = "connedAA" /\ x.adev = d -> Event(Fsm(W, c, "connedAA"), c, "Reconnected")
       [] OTHER -> W

ConnState(W, c, d, st) == Changed(SetConn(W, c, d, [ConnOf(W, c, d) EXCEPT !.st = st]), c, d)

(* connection d is accepted and has a path for the first time *)
First(W, c, d) ==
  LET x == ConnOf(W, c, d)
      W1 == IF x.rs.seq = 0 THEN W ELSE SetConn(W, c, d, [x EXCEPT !.rmax = x.rs.rate])
      W2 == ConnState(W1, c, d, "connedAA")
      W3 == IF x.ss.seq = 0 \/ ~Has(W2.m.calls, c) THEN W2 ELSE StatusEvents(W2, c, d, x.ss)
  IN IF ~Has(W3.m.calls, c) THEN W3
     ELSE IF CallOf(W3, c).dir = "in" THEN SendRtp(W3, c, d, [ConnOf(W3, c, d).acc EXCEPT !.acc = TRUE]) ELSE W3

Accept(W, c) ==
  LET x == CallOf(W, c)
      d == x.adev
  IN IF x.fsm # "connedBA" THEN W
     ELSE IF x.dir = "out" THEN Fail(Fsm(W, c, "connedAA"), c, "InternalFailure")
     ELSE LET W0 == Fsm(W, c, "connedAA")
              W1 == Enable(W0, c, d)
              W2 == IF ~Has(W1.m.calls, c) THEN W1 ELSE Event(W1, c, "LocalAccepted")
          IN IF ~Has(W2.m.calls, c) THEN W2
             ELSE IF ConnOf(W2, c, d).st \in {"connBA", "connedBA", "reconAA"} THEN First(W2, c, d) ELSE W2

(****************************** received hangup ***************************)
(* from device d: in a call known to be with another device it means nothing *)
GotHangup(W, c, d, h, hd) ==
  LET x == CallOf(W, c)
      out == x.dir = "out"
      \* until it has accepted, the callee's other devices are told (by the caller)
      Tell(V, kind) == IF Settling(x.fsm) THEN Hangup(RtpHangups(V, c, DOMAIN x.conns \ {d}, kind, d), c, x.r, kind, d) ELSE V
  IN IF x.dir = "in" /\ h \in {"accepted", "declined", "busy"} /\ hd = W.m.self THEN W
     ELSE IF x.adev # 0 /\ x.adev # d THEN W
     ELSE IF out /\ h = "permission" THEN TermActive(Tell(W, "permission"), "", "RemoteHangupNeedPermission")
     ELSE IF out /\ h = "normal" THEN TermActive(Tell(W, "declined"), "", "RemoteHangup")
     ELSE IF ~out /\ h = "accepted" THEN TermActive(W, "", "RemoteHangupAccepted")
     ELSE IF ~out /\ h = "declined" THEN TermActive(W, "", "RemoteHangupDeclined")
     ELSE IF ~out /\ h = "busy" THEN TermActive(W, "", "RemoteHangupBusy")
     ELSE TermActive(W, "", "RemoteHangup")

(***************************** received candidates ************************)
GotIce(W, c, d, cands) ==
  LET x == CallOf(W, c)
  IN IF x.fsm = "wait" THEN (IF x.dir = "in" THEN SetCall(W, c, [x EXCEPT !.held = Append(@, cands)]) ELSE Fail(W, c, "InternalFailure"))
     ELSE IF Has(x.conns, d) /\ d # 0 THEN (IF Alive(x.conns[d].st) THEN Feed(W, c, d, cands) ELSE W)
     ELSE IF Active(x.fsm) THEN W
     ELSE Fail(W, c, "InternalFailure")

(****************************** received offer ****************************)
Collision(W, op) ==
  LET a == CallOf(W, W.m.active)
      Tie == IF a.id > op.c THEN "winner" ELSE IF a.id < op.c THEN "loser" ELSE "both"
  IN IF W.m.active = 0 THEN (IF W.m.busy THEN "busy" ELSE "none")
     ELSE IF a.r # op.r THEN "busy"
     ELSE IF a.adev = 0 THEN Tie
     ELSE IF a.adev # op.d THEN "busy"
     ELSE IF Active(a.fsm) THEN "recall"
     ELSE Tie

Offer(W, op) ==
  LET kind == Collision(W, op)
      x == NewCall(op.c, op.r, "in", op.d, op.v)
      Refuse(V, e) == Push(Life(V, op.r, op.c, "event", e), Message(op.c, op.r, "busy", 0, "", 0, 0))
      \* the active call is given up; the hangup that takes follows (w: without it, late: it)
      Late(reason) ==
        LET V == TermActive([W EXCEPT !.m.flight = TRUE], "normal", reason)
            kept == SelectSeq(W.m.queue, LAMBDA q : Keep(q, W.m.active))
        IN [w |-> [V EXCEPT !.m.queue = kept, !.m.flight = W.m.flight], late |-> SubSeq(V.m.queue, Len(kept) + 1, Len(V.m.queue))]
      Begin(V) ==
        LET p == V.m.pend
            W1 == Start(Occupy([V EXCEPT !.m.pend = NoPend], op.c, x), op.c)
        IN IF ~Has(W1.m.calls, op.c) \/ p.c # op.c \/ p.r # op.r THEN W1
           ELSE IF p.k = "ice" THEN SetCall(W1, op.c, [CallOf(W1, op.c) EXCEPT !.held = @ \o [i \in 1..Len(p.l) |-> p.l[i].cands]])
           ELSE IF p.k = "hangup" THEN GotHangup(W1, op.c, p.l[1].d, p.l[1].h, p.l[1].hd)
           ELSE W1
  IN IF op.age > MaxAge THEN Life(W, op.r, op.c, "expired", "")
     ELSE CASE kind = "none" -> Begin(W)
            [] kind = "busy" -> Refuse(W, "ReceivedOfferWhileActive")
            [] kind = "winner" -> Life(W, op.r, op.c, "event", "ReceivedOfferWithGlare")
            [] kind = "loser" -> LET V == Late("RemoteGlare") IN
                 IF op.alt = 1 THEN Begin(TermActive(W, "normal", "RemoteGlare")) ELSE PushAll(Begin(V.w), V.late)
            [] kind = "both" -> LET V == Late("RemoteGlare") IN
                 IF op.alt = 1 THEN Refuse(TermActive(W, "normal", "RemoteGlare"), "GlareHandlingFailure")
                 ELSE PushAll(Refuse(V.w, "GlareHandlingFailure"), V.late)
            [] kind = "recall" -> Begin(TermActive(W, "", "RemoteReCall"))

(* what arrives for a call that is not the active one may belong to an offer still on its way *)
MaySave(W) == IF W.m.active = 0 THEN ~W.m.busy ELSE CallOf(W, W.m.active).dir = "out"
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
SaveIce(W, op) ==
  LET p == W.m.pend
      e == [d |-> op.d, cands |-> op.cands]
  IN IF p.k # "none" /\ p.c = op.c
       THEN (IF p.k = "hangup" THEN W ELSE [W EXCEPT !.m.pend.l = LastN(Append(@, e), MaxPending)])
       ELSE [W EXCEPT !.m.pend = [k |-> "ice", r |-> op.r, c |-> op.c, l |-> <<e>>]]
SaveHangup(W, op) == [W EXCEPT !.m.pend = [k |-> "hangup", r |-> op.r, c |-> op.c, l |-> <<[d |-> op.d, h |-> op.h, hd |-> op.hd]>>]]

(******************************** rtp data ********************************)
GotAccepted(W, c, d) ==
  LET x == ConnOf(W, c, d)
  IN IF CallOf(W, c).dir = "in" THEN Fail(W, c, "InternalFailure")
     ELSE IF x.st = "connBA" THEN ConnState(W, c, d, "connAA")
     ELSE IF x.st = "connedBA" THEN First(W, c, d)
     ELSE W
GotStatus(W, c, d, m) ==
  LET x == ConnOf(W, c, d)
      s == [seq |-> m.seq, v |-> m.v, s |-> m.s, a |-> m.a]
      new == x.ss.seq = 0 \/ <<x.ss.v, x.ss.s, x.ss.a>> # <<m.v, m.s, m.a>>
      W1 == SetConn(W, c, d, [x EXCEPT !.ss = s])
  IN IF m.seq <= x.ss.seq THEN W
     ELSE IF x.st \in {"connedAA", "reconAA"} /\ new THEN StatusEvents(W1, c, d, s) ELSE W1
GotRate(W, c, d, m) ==
  LET x == ConnOf(W, c, d)
      r == [seq |-> m.seq, rate |-> m.rate]
      x1 == [x EXCEPT !.rs = r]
  IN IF m.seq <= x.rs.seq THEN W
     ELSE SetConn(W, c, d, IF x.st \in {"connedAA", "reconAA"} THEN [x1 EXCEPT !.rmax = m.rate] ELSE x1)
GotRtp(W, c, d, m) ==
  LET there(V) == Has(V.m.calls, c) /\ (Has(V.m.calls, c) => Has(CallOf(V, c).conns, d))
      own == m.id = c
      W1 == IF m.acc /\ (own \/ CallOf(W, c).dir = "in") THEN GotAccepted(W, c, d) ELSE W
      W2 == IF there(W1) /\ m.h # "" /\ own /\ (there(W1) => Alive(ConnOf(W1, c, d).st)) THEN GotHangup(W1, c, d, m.h, m.hd) ELSE W1
      W3 == IF there(W2) /\ m.ss /\ own /\ m.seq # 0 THEN GotStatus(W2, c, d, m) ELSE W2
  IN IF there(W3) /\ m.rate # 0 /\ own /\ m.seq # 0 THEN GotRate(W3, c, d, m) ELSE W3

(********************************* the step *******************************)
Mine(W, op) == W.m.active # 0 /\ W.m.active = op.c /\ (W.m.active # 0 => CallOf(W, W.m.active).r = op.r)

OnConn(W, op) ==
  LET c == W.m.active
      d == op.d
      x == ConnOf(W, c, d)
  IN CASE op.op = "local" ->
            IF x.kind = "child" /\ ~op.force THEN W
            ELSE LET W1 == [W EXCEPT !.m.bufs[x.k] = Append(@, op.cand)]
                 IN IF W.m.bufs[x.k] # <<>> THEN W1
                    ELSE Push(W1, Message(c, CallOf(W, c).r, "ice", IF x.kind = "parent" THEN 0 ELSE d, "", 0, x.k))
       [] op.op = "up" ->
            IF x.st = "connBA" THEN ConnState(W, c, d, "connedBA")
            ELSE IF x.st = "connAA" THEN First(W, c, d)
            ELSE IF x.st = "reconAA" THEN ConnState(W, c, d, "connedAA")
            ELSE W
       [] op.op = "down" ->
            IF x.st = "connedBA" THEN ConnState(W, c, d, "connBA")
            ELSE IF x.st = "connedAA" THEN ConnState(W, c, d, "reconAA")
            ELSE W
       [] op.op = "icefail" ->
            IF ~Alive(x.st) THEN W
            ELSE LET W1 == SetConn(W, c, d, [x EXCEPT !.st = "failed"])
                     y == CallOf(W, c)
                 IN IF y.adev = d THEN Fail(W1, c, "ConnectionFailure")
                    ELSE IF y.adev # 0 THEN W1
                    ELSE IF DOMAIN y.conns \ {0} = {d} THEN Fail(W1, c, "ConnectionFailure")
                    ELSE SetCall(W1, c, [y EXCEPT !.conns = Drop(@, d)])
       [] op.op = "relay" ->
            LET W1 == SetConn(W, c, d, [x EXCEPT !.relay = op.on \/ op.remote])
            IN IF CallOf(W, c).adev = d
               THEN [W1 EXCEPT !.o.route = Append(@, [r |-> CallOf(W, c).r, a |-> op.on \/ op.remote])] ELSE W1
       [] op.op = "status" ->
            IF ~Talking(x.st) THEN W
            ELSE SendRtp(W, c, d, [x.acc EXCEPT !.v = IF op.v = "" THEN @ ELSE op.v, !.s = IF op.s = "" THEN @ ELSE op.s,
                                                !.a = IF op.a = "" THEN @ ELSE op.a])
       [] op.op = "mode" ->
            IF ~Alive(x.st) \/ x.mode = op.m THEN W
            ELSE SendRtp(SetConn(W, c, d, [x EXCEPT !.mode = op.m]), c, d, [x.acc EXCEPT !.rate = ModeRate(op.m)])
       [] op.op = "rtp" -> GotRtp(W, c, d, op.m)
       [] OTHER -> W

RECURSIVE Do(_, _)
Do(W, op) ==
  CASE op.op = "call" ->
         IF ~W.m.busy THEN Start(Occupy(W, op.c, NewCall(op.c, op.r, "out", 0, op.v)), op.c)
         ELSE IF Mine(W, op) THEN Fail(W, op.c, "InternalFailure")
         ELSE Life(W, op.r, op.c, "ended", "InternalFailure")
    [] op.op = "proceed" -> IF W.m.active # 0 /\ W.m.active = op.c THEN Proceed(W, op.c, op.m) ELSE W
    [] op.op = "accept" -> IF W.m.active # 0 /\ W.m.active = op.c THEN Accept(W, op.c) ELSE W
    [] op.op = "drop" -> IF W.m.active # 0 /\ W.m.active = op.c THEN TermActive(W, "", "AppDroppedCall") ELSE W
    [] op.op = "hangup" -> TermActive(W, "normal", "LocalHangup")
    [] op.op = "sent" -> SendNext([W EXCEPT !.m.flight = FALSE])
    [] op.op = "failed" ->
         LET x == CallOf(W, op.c)
             stay == Talking(x.fsm) /\ W.m.last = "ice"
             W1 == [W EXCEPT !.m.flight = TRUE]
             W2 == IF W.m.active = op.c /\ op.c # 0 THEN (IF stay THEN W1 ELSE Fail(W1, op.c, "SignalingFailure")) ELSE W1
         IN SendNext([W2 EXCEPT !.m.flight = FALSE])
    [] op.op = "reset" ->
         LET c == W.m.active
             Clear(V) == [V EXCEPT !.m.queue = <<>>, !.m.flight = FALSE, !.m.active = 0, !.m.busy = FALSE]
         IN IF c = 0 THEN Clear(W)
            ELSE IF op.alt = 1 THEN Terminate(Clear(W), c, "normal", "") ELSE Clear(Terminate([W EXCEPT !.m.active = 0, !.m.busy = FALSE], c, "normal", ""))
    [] op.op = "timeout" ->
         IF W.m.active = 0 THEN W
         ELSE IF Active(CallOf(W, W.m.active).fsm) THEN W
         ELSE TermActive(W, "normal", "Timeout")
    [] op.op = "offer" -> Offer(W, op)
    [] op.op = "answer" ->
         IF ~Mine(W, op) THEN W
         ELSE LET x == CallOf(W, op.c)
              IN IF x.fsm \notin {"connBA", "connedBA"} \/ Has(x.conns, op.d) THEN W
                 ELSE IF x.dir = "in" THEN Fail(W, op.c, "InternalFailure")
                 ELSE IF Faulty(W, "create") THEN Fail(Spent(W, "create"), op.c, "InternalFailure")
                 ELSE AddConn(W, op.c, op.d, "child", x.conns[0].mode)
    [] op.op = "ice" ->
         IF W.m.active # 0 /\ W.m.active = op.c THEN (IF Mine(W, op) THEN GotIce(W, op.c, op.d, op.cands) ELSE W)
         ELSE IF MaySave(W) THEN SaveIce(W, op) ELSE W
    [] op.op = "burst" -> \* many messages of one candidate each
         LET RECURSIVE Go1(_, _)
             Go1(V, i) == IF i > op.k THEN V
                          ELSE Go1(Do(V, [op |-> "ice", r |-> op.r, c |-> op.c, d |-> op.d, cands |-> <<"b" \o ToString(i)>>]), i + 1)
         IN Go1(W, 1)
    [] op.op = "rhangup" ->
         IF W.m.active # 0 /\ W.m.active = op.c THEN (IF Mine(W, op) THEN GotHangup(W, op.c, op.d, op.h, op.hd) ELSE W)
         ELSE IF MaySave(W) THEN SaveHangup(W, op) ELSE W
    [] op.op = "rbusy" ->
         IF ~Mine(W, op) THEN W
         ELSE LET x == CallOf(W, op.c)
              IN TermActive(Hangup(RtpHangups(W, op.c, DOMAIN x.conns \ {op.d}, "busy", op.d), op.c, x.r, "busy", op.d), "", "RemoteBusy")
    [] op.op = "fault" -> [W EXCEPT !.m.faults = @ \union {op.f}]
    [] OTHER -> IF W.m.active = 0 THEN W
                ELSE IF ~Has(CallOf(W, W.m.active).conns, op.d) THEN W
                ELSE OnConn(W, op)

(* the media stack hands each connection its remote stream once it has both descriptions *)
Streams(W) ==
  [W EXCEPT !.m.calls = [c \in DOMAIN @ |-> [@[c] EXCEPT !.conns = [d \in DOMAIN @ |-> [@[d] EXCEPT !.stream = @ \/ d # 0]]]]]
Go(m, op) == Streams(Do(World(m), op))
(* Some steps race with the worker that carries out the end of a call: what it sends may come   *)
(* before or after what the manager does meanwhile.                                             *)
Alternatives(op) == IF op.op \in {"offer", "reset"} THEN {1, 2} ELSE {1}
Steps(m, op) == {Go(m, op @@ [alt |-> a]) : a \in Alternatives(op)}
Step(m, op) == Go(m, op @@ [alt |-> 1])
=============================================================================
