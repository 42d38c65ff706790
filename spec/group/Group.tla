-------------------------------- MODULE Group --------------------------------
(* One client of a group call: its life cycle, the participants it knows,    *)
(* the media keys it hands out and accepts, what it tells the application    *)
(* and the server.  A stimulus (an API call, an answer of the server, a      *)
(* message, time going by) is a function from state to state; what it makes  *)
(* the client do is collected in s.o, by category.                           *)
(* Time: a "wait" is 2.8 s, so the key changeover (5 s), query time-outs     *)
(* (5 s) take two waits and the periodic query (10 s) four; a reminder of a  *)
(* leaving participant (2 s) takes one.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Local == 1
Me == "me"
\* whose device it is; "" when the group does not know
Owner(d) == CASE d \in 1..9 -> Me [] d \in 10..19 -> "a" [] d \in 20..29 -> "b" [] d \in 30..39 -> "c" [] OTHER -> ""
Els(q) == {q[i] : i \in DOMAIN q}
NoHb == [am |-> "n", vm |-> "n", pr |-> "n", ss |-> "n", mb |-> 0]
NewDevice == [ts |-> 0, hb |-> NoHb, reqs |-> {}, leaving |-> FALSE, keys |-> FALSE, spk |-> 0]
NoPeek == [has |-> FALSE, devs |-> <<>>, pend |-> <<>>, era |-> ""]
NoOut == [life |-> <<>>, ring |-> <<>>, bye |-> <<>>, keys |-> <<>>, devs |-> <<>>, peeks |-> <<>>, rates |-> <<>>, hands |-> <<>>,
          muted |-> <<>>, wire |-> <<>>]
Fresh(kind) ==
  [kind |-> kind, conn |-> "NotConnected", began |-> FALSE, join |-> "NotJoined", left |-> FALSE, gone |-> FALSE, dhe |-> FALSE, busy |-> FALSE,
   cur |-> [l |-> 1, rc |-> 0], rot |-> [on |-> FALSE, l |-> 0, again |-> FALSE, age |-> 0], nl |-> 2,
   remote |-> <<>>, info |-> <<>>, members |-> {}, sig |-> [n |-> 0, u |-> {}], last |-> NoPeek, known |-> {},
   peek |-> [st |-> IF kind = "group" THEN "waiting" ELSE "never", again |-> FALSE, age |-> 0], asked |-> 0, timers |-> 0,
   got |-> {}, early |-> <<>>, hb |-> NoHb, hands |-> [list |-> <<>>, seq |-> 0, raise |-> FALSE, out |-> FALSE],
   reacts |-> <<>>, mute |-> 0, rates |-> [min |-> 0, start |-> 0, max |-> 0], over |-> FALSE, spkts |-> 0, spkn |-> 0,
   vreq |-> [on |-> FALSE, reqs |-> <<>>, act |-> 0], vsent |-> FALSE, maxr |-> 20000,
   ring |-> "unknown", aseq |-> 0, o |-> NoOut]

E(s, cat, x) == [s EXCEPT !.o[cat] = Append(@, x)]
In(s) == s.join \in {"Pending", "Joined"}
Has(s, d) == d \in Els(s.remote)
RemoteUsers(s) == {Owner(d) : d \in Els(s.remote)}
Str(n) == ToString(n)

----------------------------------------------------------------------------- 
\* participant queries
Ask(s) == [E(s, "peeks", <<"ask">>) EXCEPT !.peek = [st |-> "requested", again |-> FALSE, age |-> 0], !.asked = @ + 1]
Want(s, maxage, insist) ==
  LET due == CASE s.peek.st = "waiting" -> FALSE [] s.peek.st = "never" -> TRUE
               [] s.peek.st = "updated" -> s.peek.age >= maxage
               [] s.peek.st \in {"requested", "failed"} -> s.peek.age >= 2
  IN IF due THEN Ask(s) ELSE IF insist /\ s.peek.st = "requested" THEN [s EXCEPT !.peek.again = TRUE] ELSE s
Soon(s) == Want(s, 0, TRUE)
Routine(s) == Want(s, 4, FALSE)

\* media keys handed out
SendKey(s, R, l, rc) ==
  LET others == R \ {Me}
      many == s.kind = "group" /\ Cardinality(others) > 1
  IN IF R = {} THEN s
     ELSE E(s, "keys", [lin |-> l, rc |-> rc, group |-> IF many THEN others ELSE {}, to |-> IF many THEN R \cap {Me} ELSE R])
Advance(s, R) == LET n == s.cur.rc + 1 IN SendKey([s EXCEPT !.cur.rc = n], R, s.cur.l, n)
SendNext(s, R) == IF s.rot.on THEN SendKey(s, R, s.rot.l, 0) ELSE s
Rotate(s) ==
  IF s.rot.on THEN [s EXCEPT !.rot.again = TRUE]
  ELSE LET t == IF In(s) THEN SendKey(s, RemoteUsers(s), s.nl, 0) ELSE s
       IN [t EXCEPT !.rot = [on |-> TRUE, l |-> s.nl, again |-> FALSE, age |-> 0], !.nl = @ + 1]
Changeover(s) ==
  LET t == [s EXCEPT !.cur = [l |-> s.rot.l, rc |-> 0], !.rot.on = FALSE, !.rot.again = FALSE]
  IN IF s.rot.again THEN Rotate(t) ELSE t

\* what the application is told
DeviceView(s, d) ==
  LET i == s.info[d] IN [d |-> d, u |-> Owner(d), keys |-> i.keys, am |-> i.hb.am, vm |-> i.hb.vm, pr |-> i.hb.pr, ss |-> i.hb.ss, leaving |-> i.leaving]
Show(s, why) == E(s, "devs", [why |-> why, list |-> [i \in DOMAIN s.remote |-> DeviceView(s, s.remote[i])]])
SetConn(s, c) == [E(s, "life", <<"conn", c>>) EXCEPT !.conn = c]
SetJoin(s, j) == [E(s, "life", <<"join", j>>) EXCEPT !.join = j]

AddKey(s, u, d, k) ==
  IF Has(s, d)
  THEN IF Owner(d) # u THEN s
       ELSE LET t == [s EXCEPT !.got = @ \cup {<<d, k>>}, !.info[d].keys = TRUE]
            IN IF s.info[d].keys THEN t ELSE Show(t, "MediaKeyReceived(" \o Str(d) \o ")")
  ELSE LET t == IF s.early = <<>> /\ s.kind = "group" THEN E(s, "life", <<"members">>) ELSE s
       IN [t EXCEPT !.early = Append(@, <<u, d, k>>)]
RECURSIVE AddKeys(_, _)
AddKeys(s, q) == IF q = <<>> THEN s ELSE AddKeys(AddKey(s, q[1][1], q[1][2], q[1][3]), Tail(q))

Compute(n, share) ==
  CASE n = 0 -> [min |-> 0, start |-> 0, max |-> 1]
    [] n > 0 /\ share -> [min |-> 500, start |-> 1000, max |-> 2000]
    [] n \in 1..7 /\ ~share -> [min |-> 0, start |-> 0, max |-> 1000]
    [] OTHER -> [min |-> 0, start |-> 0, max |-> 671]
Rates(s, r) == IF s.over \/ s.rates = r THEN s ELSE [E(s, "rates", r) EXCEPT !.rates = r]

\* an answer about the participants
Sig(pend) == [n |-> Len(pend), u |-> {Owner(d) : d \in Els(pend)} \ {""}]
Devices(s, p, news) ==
  LET list == SelectSeq(p.devs, LAMBDA d : d # Local /\ Owner(d) # "")
      old == Els(s.remote)
      new == Els(list)
      here == Local \in Els(p.devs)
      users == {Owner(d) : d \in new \ old}
      s1 == [s EXCEPT !.remote = list, !.info = [d \in new |-> IF d \in old THEN s.info[d] ELSE NewDevice]]
      s2 == IF old # new THEN Show(s1, "DemuxIdsChanged") ELSE s1
      s3 == IF here /\ s.join = "Pending" THEN SetJoin(s2, "Joined") ELSE s2
      s4 == IF users # {} THEN SendNext(Advance(s3, users), users) ELSE s3
      s5 == IF s.members \ news # {} THEN Rotate(s4) ELSE s4
      s6 == AddKeys([s5 EXCEPT !.early = <<>>], s5.early)
      s7 == IF here THEN Rates(s6, Compute(Cardinality(new), s.hb.ss = "t")) ELSE s6
  IN IF new # {} /\ s7.ring = "sent" THEN [s7 EXCEPT !.ring = "no"] ELSE s7
Result(s, p) ==
  LET news == {Owner(d) : d \in Els(p.devs)} \ {""}
      differs == ~s.last.has \/ s.members # news \/ s.last.era # p.era \/ s.sig # Sig(p.pend)
      s1 == [s EXCEPT !.peek = [st |-> "updated", again |-> FALSE, age |-> 0]]
      s2 == IF differs THEN E(s1, "peeks", <<"show", news, p.devs, p.pend, p.era>>) ELSE s1
      s3 == IF In(s) /\ s.dhe THEN Devices(s2, p, news) ELSE s2
      s4 == [s3 EXCEPT !.last = [p EXCEPT !.has = TRUE], !.members = news, !.sig = Sig(p.pend)]
  IN IF s.peek.st = "requested" /\ s.peek.again THEN Soon(s4) ELSE s4

\* leaving and ending
HbItem(s) == <<"hb", s.hb.am, s.hb.vm, s.hb.pr, s.hb.ss, Str(s.hb.mb)>>
Through(s, x) == IF s.join = "Joined" THEN E(s, "wire", x) ELSE s   \* to the other devices
ToServer(s, x) == IF In(s) THEN E(s, "wire", x) ELSE s
Leave(s) ==
  LET s1 == IF s.ring = "sent" THEN E(s, "ring", <<"cancel">>) ELSE s
      others == s.members \ {Me}
      many == s.kind = "group" /\ Cardinality(others) > 1
      s2 == IF In(s) /\ s.members # {}
            THEN E(Through(s1, <<"leaving">>), "bye", [group |-> IF many THEN others ELSE {}, to |-> IF many THEN s.members \cap {Me} ELSE s.members])
            ELSE Through(s1, <<"leaving">>)
      s3 == IF In(s) THEN ToServer(ToServer(s2, <<"leave">>), <<"leave">>) ELSE s2
  IN IF s.join = "NotJoined" THEN s1
     ELSE [SetJoin(s3, "NotJoined") EXCEPT !.busy = FALSE, !.left = TRUE]
End(s, reason) ==
  LET t == IF s.join # "NotJoined" THEN Leave(s) ELSE s
  IN IF s.conn = "NotConnected" THEN t ELSE [E(SetConn(t, "NotConnected"), "life", <<"ended", reason>>) EXCEPT !.gone = TRUE]

RingNow(s) ==
  CASE s.ring = "may" -> [E(s, "ring", <<"ring">>) EXCEPT !.ring = IF s.remote = <<>> THEN "sent" ELSE "no"]
    [] s.ring = "unknown" -> [s EXCEPT !.ring = "wants"]
    [] OTHER -> s

\* video wishes
RECURSIVE Wishes(_, _)
Wishes(s, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET r == Head(q) IN (IF Has(s, r.d) THEN <<Str(r.d), Str(IF r.h < r.w THEN r.h ELSE r.w)>> ELSE <<>>) \o Wishes(s, Tail(q))
VideoItem(s) == <<"video", Str(s.maxr), Str(s.vreq.act)>> \o Wishes(s, s.vreq.reqs)
OnDemand(s) ==
  LET t == IF s.vreq.on /\ ~s.vsent THEN ToServer(s, VideoItem(s)) ELSE s IN [t EXCEPT !.vsent = TRUE]
RaiseItem(s) == <<"raise", IF s.hands.raise THEN "t" ELSE "f", Str(s.hands.seq)>>
Admin(s, what, d) == IF In(s) THEN [E(s, "wire", <<"admin", what, Str(d), Str(s.aseq + 1)>>) EXCEPT !.aseq = @ + 1] ELSE s

-----------------------------------------------------------------------------
\* the application
Connect(s) ==
  IF s.conn # "NotConnected" THEN s
  ELSE LET t == SetConn([s EXCEPT !.began = TRUE, !.vsent = FALSE], "Connecting")
       IN Routine(IF s.kind = "group" THEN E(E(t, "life", <<"proof">>), "life", <<"members">>) ELSE t)
Join(s) ==
  IF s.join # "NotJoined" THEN s
  ELSE IF s.busy THEN End(s, "CallManagerIsBusy")
  ELSE LET t == SetJoin([s EXCEPT !.busy = TRUE], "Joining")
           u == IF s.kind = "group" THEN E(t, "life", <<"proof">>) ELSE t
       IN E([u EXCEPT !.dhe = FALSE], "life", <<"sfujoin">>)
LeaveNow(s) == Leave(s)
Disconnect(s) == End(s, "DeviceExplicitlyDisconnected")
OtherCall(s, b) == [s EXCEPT !.busy = b]
SetProof(s) ==
  LET t == E(s, "life", <<"sfuproof">>)
  IN IF s.peek.st = "waiting" THEN Soon([t EXCEPT !.peek.st = "never"]) ELSE t
SetMembers(s, M) == IF M = s.known THEN s ELSE Soon([E(s, "life", <<"sfumembers">>) EXCEPT !.known = M])
HbNow(s) == Through(s, HbItem(s))
MutedBy(s, muted, by) ==
  LET mb == CASE muted /\ s.hb.am # "t" -> by [] muted /\ s.hb.am = "t" -> s.hb.mb [] OTHER -> 0
  IN HbNow([s EXCEPT !.hb.am = IF muted THEN "t" ELSE "f", !.hb.mb = mb])
TF(b) == IF b THEN "t" ELSE "f"
SetVideo(s, b) == HbNow([s EXCEPT !.hb.vm = TF(b)])
Present(s, b) == HbNow([s EXCEPT !.hb.pr = TF(b)])
Share(s, b) == Rates(HbNow([s EXCEPT !.hb.ss = TF(b)]), Compute(Len(s.remote), b))
AskMute(s, d) ==
  IF In(s) /\ d = Local THEN s
  ELSE Through(IF In(s) /\ Has(s, d) /\ s.info[d].hb.am = "f" THEN [s EXCEPT !.info[d].reqs = @ \cup {Local}] ELSE s, <<"mutereq", Str(d)>>)
React(s, v) == IF v \in {"", "long"} THEN s ELSE Through(s, <<"react", v>>)
Raise(s, b) == LET t == [s EXCEPT !.hands.seq = @ + 1, !.hands.raise = b, !.hands.out = TRUE] IN ToServer(t, RaiseItem(t))
ReqVideo(s, reqs, act) == OnDemand([s EXCEPT !.vreq = [on |-> TRUE, reqs |-> reqs, act |-> act]])
DataMode(s, kbps) == OnDemand([s EXCEPT !.maxr = kbps])
Override(s, r) == LET t == [s EXCEPT !.over = FALSE] IN [Rates(t, r) EXCEPT !.over = TRUE]
ResendKeys(s) == IF In(s) THEN SendKey(s, RemoteUsers(s), s.cur.l, s.cur.rc) ELSE s
Decide(s, u, what) ==
  LET q == SelectSeq(s.last.pend, LAMBDA d : Owner(d) = u) IN IF s.last.has /\ q # <<>> THEN Admin(s, what, q[1]) ELSE s

\* the server
JoinOk(s, st, creator, good) ==
  LET s1 == IF s.conn = "Connecting" THEN Rates([s EXCEPT !.dhe = TRUE], Compute(0, FALSE)) ELSE s
      s2 == [Soon(s1) EXCEPT !.join = st]
      s3 == IF s2.last.has THEN Result(s2, s2.last) ELSE s2
      s4 == IF s2.last.has /\ s3.remote = <<>> THEN Show(s3, "DemuxIdsChanged") ELSE s3
      s5 == E(s4, "life", <<"join", s4.join>>)
      s6 == CASE creator = "none" -> s5
              [] creator = Me -> IF s5.ring = "wants" THEN RingNow([s5 EXCEPT !.ring = "may"]) ELSE [s5 EXCEPT !.ring = "may"]
              [] OTHER -> [s5 EXCEPT !.ring = "no"]
  IN IF s.conn = "Connecting" /\ ~good THEN End(s, "FailedToNegotiatedSrtpKeys")
     ELSE IF s.join # "Joining" THEN s1 ELSE s6
JoinFail(s, full) == End(s, IF full THEN "HasMaxDevices" ELSE "SfuClientFailedToJoin")
Ice(s, i) ==
  CASE s.conn = "Connecting" /\ i \in {"Disconnected", "Closed", "Failed"} -> End(s, "IceFailedWhileConnecting")
    [] s.conn \in {"Connecting", "Reconnecting"} /\ i = "Checking" -> s
    [] s.conn \in {"Connecting", "Reconnecting"} /\ i \in {"Connected", "Completed"} -> SetConn(s, "Connected")
    [] s.conn = "Connected" /\ i \in {"Checking", "Disconnected"} -> SetConn(s, "Reconnecting")
    [] s.conn # "Connecting" /\ i \in {"Failed", "Closed"} -> End(s, "IceFailedAfterConnected")
    [] OTHER -> s
PeekOk(s, p) == Result([s EXCEPT !.asked = @ - 1], p)
PeekFail(s) == [s EXCEPT !.asked = @ - 1, !.peek = [st |-> "failed", again |-> FALSE, age |-> 0]]
Pushed(s, p) == Result(s, p)
Hint(s) == Soon(s)
Removed(s) == End(s, IF s.join = "Joined" THEN "RemovedFromCall" ELSE "DeniedRequestToJoinCall")
Hands(s, list, seq) ==
  IF seq # 0
  THEN IF seq < s.hands.seq THEN s
       ELSE LET t == [s EXCEPT !.hands.seq = seq, !.hands.out = FALSE, !.hands.list = list]
            IN IF s.hands.out \/ s.hands.list # list THEN E(t, "hands", list) ELSE t
  ELSE IF s.hands.seq = 0 /\ s.hands.list # list THEN E([s EXCEPT !.hands.list = list], "hands", list) ELSE s
RECURSIVE HandsAll(_, _)
HandsAll(s, q) == IF q = <<>> THEN s ELSE HandsAll(Hands(s, Head(q).list, Head(q).seq), Tail(q))
Newest(s) == LET D == {d \in Els(s.remote) : s.info[d].spk # 0} IN
  IF D = {} THEN 0 ELSE CHOOSE d \in D : \A x \in D : s.info[x].spk <= s.info[d].spk
Speaker(s, ts, d) ==
  LET t == [s EXCEPT !.spkts = ts] IN
  IF s.spkts # 0 /\ ts <= s.spkts THEN s
  ELSE IF ~Has(s, d) \/ Newest(s) = d THEN t
  ELSE Show([t EXCEPT !.info[d].spk = s.spkn + 1, !.spkn = @ + 1], "SpeakerTimeChanged(" \o Str(d) \o ")")

\* other participants, by signaling message
KeyMessage(s, u, d, k, shape) ==
  CASE shape = "ok" -> LET t == AddKey(s, u, d, k) IN IF Has(s, d) THEN t ELSE Soon(t)
    [] shape = "counter" -> IF Has(s, d) THEN s ELSE Soon(s)
    [] OTHER -> s
Leaving(s, u, d) ==
  IF Has(s, d) /\ ~s.info[d].leaving /\ u \in {Owner(d), "?"} THEN [Soon([s EXCEPT !.info[d].leaving = TRUE]) EXCEPT !.timers = @ + 1] ELSE s
LeavingSignal(s, u, d, g) == IF g = "g" THEN Leaving(s, u, d) ELSE s
\* through the server, encrypted: m is understood only with a key accepted for the device it comes from
Heard(s, d, k) == <<d, k>> \in s.got
Then(s, d) == IF Has(s, d) THEN s ELSE Soon(s)
HbFrom(s, d, ts, h) ==
  LET i == s.info[d]
      reqs == IF h.am = "f" /\ i.hb.am # "f" THEN {} ELSE i.reqs
      by == IF h.mb # i.hb.mb THEN h.mb ELSE 0
      s1 == [s EXCEPT !.info[d].ts = ts, !.info[d].hb = h, !.info[d].reqs = reqs]
      s2 == IF by # 0 /\ h.am = "t" /\ i.hb.am = "f" /\ by \in reqs THEN E(s1, "muted", <<by, d>>) ELSE s1
  IN IF ~Has(s, d) THEN s
     ELSE IF ts <= i.ts THEN s
     ELSE IF h = i.hb THEN [s EXCEPT !.info[d].ts = ts]
     ELSE Show(s2, "HeartbeatStateChanged(" \o Str(d) \o ")")
MuteReq(s, d, target) ==
  IF ~In(s) THEN s
  ELSE IF target = Local THEN IF s.mute = 0 /\ d # Local THEN [s EXCEPT !.mute = d] ELSE s
  ELSE IF Has(s, target) /\ s.info[target].hb.am # "t" THEN [s EXCEPT !.info[target].reqs = @ \cup {d}] ELSE s
ReactFrom(s, d, v) == IF v \in {"", "long"} THEN s ELSE [s EXCEPT !.reacts = Append(@, <<Str(d), v>>)]

\* the periodic work hands over reactions and a request to mute
TellReacts(s) == [s EXCEPT !.reacts = <<>>]
TellMute(s) == [s EXCEPT !.mute = 0]

\* 2.8 s go by
RECURSIVE Remind(_, _)
Remind(s, n) == IF n = 0 THEN s ELSE Remind(Soon(s), n - 1)
Beating(s) == s.began /\ ~s.left
Wait(s) ==
  LET s1 == [s EXCEPT !.peek.age = @ + 1, !.rot.age = @ + 1]
      s2 == IF s1.rot.on /\ s1.rot.age >= 2 THEN Changeover(s1) ELSE s1
      s3 == [Remind([s2 EXCEPT !.peek.age = @ - 1], s.timers) EXCEPT !.timers = 0]
      s4 == IF s3.peek.st = "requested" /\ s3.asked > s2.asked THEN s3 ELSE [s3 EXCEPT !.peek.age = @ + 1]
      s5 == IF s.began THEN Routine(s4) ELSE s4
  IN [s5 EXCEPT !.vsent = IF Beating(s) THEN FALSE ELSE @]
\* the order within the wait is not certain
Unsure(s) == s.timers > 0 /\ \/ s.peek.st \in {"requested", "failed"} /\ s.peek.age = 1
                             \/ s.peek.st = "updated" /\ s.peek.age = 3
=============================================================================
