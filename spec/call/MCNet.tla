-------------------------------- MODULE MCNet --------------------------------
(* Several devices, each running Call, joined by a network that delivers what  *)
(* one device sends another in order, and may lose media data.          *)
EXTENDS Call
CONSTANTS Devices,   \* <<user, device number>>
          Places,    \* calls that will be placed: [c |-> id, from |-> device, to |-> user]
          Acts,      \* what users do besides: "accept", "hangup", "timeout", "fail"
          MaxActs    \* how often
VARIABLES ms, net, post, left, acts, ends
vars == <<ms, net, post, left, acts, ends>>

Peer(r) == {d \in Devices : d[1] = r}
(* what device x sends, as the stimuli it will be elsewhere *)
Receivers(x, s) == {d \in Peer(s.r) : s.to = 0 \/ d[2] = s.to}
AsOp(x, s) ==
  CASE s.t = "offer" -> [op |-> "offer", r |-> x[1], c |-> s.c, v |-> s.h, d |-> x[2], age |-> 0]
    [] s.t = "answer" -> [op |-> "answer", r |-> x[1], c |-> s.c, d |-> x[2]]
    [] s.t = "hangup" -> [op |-> "rhangup", r |-> x[1], c |-> s.c, d |-> x[2], h |-> s.h, hd |-> s.hd]
    [] s.t = "busy" -> [op |-> "rbusy", r |-> x[1], c |-> s.c, d |-> x[2]]
    [] s.t = "ice" -> [op |-> "ice", r |-> x[1], c |-> s.c, d |-> x[2], cands |-> s.cands]
Rtp(c, acc, h, hd) == [id |-> c, acc |-> acc, h |-> h, hd |-> hd, ss |-> FALSE, v |-> "", s |-> "", a |-> "", rate |-> 0, seq |-> 1]
OutOf(x, m, W) ==
  {[to |-> y, op |-> [op |-> "rtp", d |-> x[2], m |-> Rtp(t[1], t[2], t[3], t[4])], sure |-> t[2]] :
          <<y, t>> \in {<<y, t>> \in Devices \X ({<<r.c, TRUE, "", 0, r.d>> : r \in {q \in {W.o.rtp[i] : i \in DOMAIN W.o.rtp} : q.m.acc}}
                                             \union {<<r.c, FALSE, r.h, r.hd, r.d>> : r \in W.o.rh}) :
                        /\ t[5] = y[2] /\ t[1] \in DOMAIN m.calls /\ (t[1] \in DOMAIN m.calls => m.calls[t[1]].r = y[1])}}
(* signaling, by receiver, in order *)
Letters(x, W) == [d \in Devices |-> LET l == SelectSeq(W.o.send, LAMBDA s : d \in Receivers(x, s)) IN [i \in DOMAIN l |-> AsOp(x, l[i])]]
(* the application confirms every message at once *)
RECURSIVE Run(_, _, _)
Run(x, m, op) ==
  LET W == Step(m, op)
      out == OutOf(x, IF DOMAIN m.calls = {} THEN W.m ELSE m, W)
      told == {W.o.life[i] : i \in DOMAIN W.o.life}
  IN IF W.m.flight THEN LET R == Run(x, W.m, [op |-> "sent", c |-> 0]) IN [m |-> R.m, out |-> out \union R.out, told |-> told \union R.told,
                              post |-> [d \in Devices |-> Letters(x, W)[d] \o R.post[d]]]
     ELSE [m |-> W.m, out |-> out, told |-> told, post |-> Letters(x, W)]
EndsOf(x, told) == {[x |-> x, c |-> t.c, a |-> t.a] : t \in {u \in told : u.e = "ended"}}
DoTo(x, op, sub, posts) ==
  LET R == Run(x, ms[x], op)
  IN /\ post' = [posts EXCEPT ![x] = [d \in Devices |-> @[d] \o R.post[d]]]
     /\ ms' = [ms EXCEPT ![x] = R.m]
     /\ net' = (net \ sub) \union R.out
     /\ ends' = ends \union EndsOf(x, R.told)

Do1(x, op, sub) == DoTo(x, op, sub, post)

ActiveCall(x) == ms[x].calls[ms[x].active]
InCall(x) == ms[x].active # 0
Init == /\ ms = [x \in Devices |-> [M0 EXCEPT !.self = x[2]]]
        /\ post = [x \in Devices |-> [y \in Devices |-> <<>>]]
        /\ net = {} /\ left = Places /\ acts = 0 /\ ends = {}
Place == \E p \in left : /\ ~InCall(p.from) /\ left' = left \ {p} /\ UNCHANGED acts
                         /\ Do1(p.from, [op |-> "call", c |-> p.c, r |-> p.to, v |-> "audio"], {})
\* what was sent on a connection that is gone cannot be read on another
Deliver == \E n \in net : ms[n.to].active = n.op.m.id /\ Do1(n.to, n.op, {n}) /\ UNCHANGED <<left, acts>>
Without(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Read == \E x, y \in Devices : \E i \in DOMAIN post[x][y] :
          i = 1 /\ DoTo(y, post[x][y][i], {}, [post EXCEPT ![x][y] = Without(@, i)]) /\ UNCHANGED <<left, acts>>
Lose == \E n \in net : (~n.sure \/ ms[n.to].active # n.op.m.id) /\ net' = net \ {n} /\ UNCHANGED <<ms, post, left, acts, ends>>
Proceed1 == \E x \in Devices : InCall(x) /\ ~ActiveCall(x).ctx /\ Do1(x, [op |-> "proceed", c |-> ms[x].active, m |-> "normal"], {}) /\ UNCHANGED <<left, acts>>
Other(x, d) == <<ActiveCall(x).r, d>>
Joined(x, d) == LET y == Other(x, d) IN y \in Devices /\ ms[y].active = ms[x].active /\ x[2] \in DOMAIN ActiveCall(y).conns
Up1 == \E x \in Devices : InCall(x) /\ \E d \in DOMAIN ActiveCall(x).conns \ {0} :
          ActiveCall(x).conns[d].st \in {"connBA", "connAA"} /\ Joined(x, d) /\ Do1(x, [op |-> "up", d |-> d], {}) /\ UNCHANGED <<left, acts>>
Act(k, op(_)) == k \in Acts /\ acts < MaxActs /\ acts' = acts + 1 /\ UNCHANGED left /\ \E x \in Devices : InCall(x) /\ Do1(x, op(x), {})
Answers1 == "accept" \in Acts /\ UNCHANGED <<left, acts>>
            /\ \E x \in Devices : InCall(x) /\ ActiveCall(x).dir = "in" /\ ActiveCall(x).fsm = "connedBA" /\ Do1(x, [op |-> "accept", c |-> ms[x].active], {})
HangsUp == Act("hangup", LAMBDA x : [op |-> "hangup"])
TimesOut1 == Act("timeout", LAMBDA x : [op |-> "timeout"])
Next == Place \/ Read \/ Deliver \/ Lose \/ Proceed1 \/ Up1 \/ Answers1 \/ HangsUp \/ TimesOut1
Spec == Init /\ [][Next]_vars

(******************************** at rest ***********************************)
Quiet == net = {} /\ (\A x, y \in Devices : post[x][y] = <<>>) /\ (\A p \in left : InCall(p.from)) /\ \A x \in Devices : InCall(x) => ActiveCall(x).ctx
Caller(c) == (CHOOSE p \in Places : p.c = c).from
(* nobody is left in a call its caller is not in *)
NoOrphan == Quiet => \A x \in Devices : InCall(x) => ms[Caller(ms[x].active)].active = ms[x].active
(* a caller talks to one device of the callee, which talks to the caller; its other devices have let go *)
OneTalks == Quiet => \A x \in Devices : (InCall(x) /\ (InCall(x) => ActiveCall(x).dir = "out" /\ Accepted(ActiveCall(x).fsm))) =>
   {y \in Peer(ActiveCall(x).r) : ms[y].active = ms[x].active} = {<<ActiveCall(x).r, ActiveCall(x).adev>>}
(* a device never talks on a call whose caller talks to somebody else, once all is told *)
(* two users calling each other: the call with the greater id stays, on both sides *)
Greatest(S) == CHOOSE c \in S : \A k \in S : k <= c
Glare == (Quiet /\ left = {} /\ acts = 0 /\ Cardinality(Places) = 2 /\ Cardinality(Devices) = 2) =>
   LET S == {p.c : p \in Places} IN
   IF Cardinality(S) = 1 THEN TRUE
   ELSE \A x \in Devices : ms[x].active = Greatest(S)
Ringing(x) == InCall(x) /\ ActiveCall(x).dir = "in"
(* why a device let go is what happened *)
ToldWhy == \A e \in ends :
   /\ e.a = "RemoteHangupAccepted" => \E y \in Devices : y[1] = e.x[1] /\ y # e.x /\ (ms[y].active = e.c \/ \E f \in ends : f.x = y /\ f.c = e.c)
   /\ e.a = "RemoteGlare" => Cardinality(Places) > 1
   /\ e.a # "InternalFailure"
=============================================================================
