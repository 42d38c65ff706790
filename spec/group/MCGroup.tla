------------------------------- MODULE MCGroup -------------------------------
EXTENDS GroupOps, SequencesExt, Json
CONSTANTS Depth, Kinds, Devs, Waits
VARIABLES s, op, given, script, after
mvars == <<s, op, given, script, after>>
Sorted(S) == SetToSortSeq(S, <)
Reverse2(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
\* the keys handed out in a step: who, which lineage, from which point of it
Given(t) == {<<u, t.o.keys[i].lin, t.o.keys[i].rc>> : i \in DOMAIN t.o.keys, u \in {Me, "a", "b", "c"}}
            \cap UNION {{<<u, t.o.keys[i].lin, t.o.keys[i].rc>> : u \in t.o.keys[i].group \cup t.o.keys[i].to} : i \in DOMAIN t.o.keys}
Began(kind) == [op |-> "Reset", kind |-> kind]
Peek(devs, pend, era) == [has |-> TRUE, devs |-> devs, pend |-> pend, era |-> era]
MInit == \E kind \in Kinds :
  s = Soon(Fresh(kind)) /\ op = Began(kind) /\ given = {} /\ script = <<Began(kind)>> /\ after = 0
\* well into a call already: with one other device there
RECURSIVE Run(_, _, _)
Run(t, g, q) == IF q = <<>> THEN [s |-> t, g |-> g] ELSE LET u == Do(t, q[1]) IN Run(u, g \cup Given(u), Tail(q))
Underway(kind) == Run(Soon(Fresh(kind)), {},
  <<[op |-> "SetMembers", m |-> <<"me", "a", "b">>], [op |-> "SetProof"], [op |-> "Connect"], [op |-> "Join"],
    [op |-> "JoinOk", st |-> "Joined", creator |-> Me, good |-> TRUE], [op |-> "Ice", i |-> "Connected"], [op |-> "PeekOk", p |-> Peek(<<1, 10>>, <<>>, "E1")]>>)
UInit == \E kind \in Kinds : \E u \in {Underway(kind)} :
  s = u.s /\ op = Began(kind) /\ given = u.g /\ script = <<Began(kind)>> /\ after = 0
Step(x) == op' = x /\ s' = Do(s, x) /\ given' = given \cup Given(s')
-----------------------------------------------------------------------------
\* every small history
Ops ==
  {[op |-> "Connect"], [op |-> "Join"], [op |-> "Leave"], [op |-> "Disconnect"], [op |-> "Wait"], [op |-> "ResendKeys"], [op |-> "Hint"], [op |-> "Removed"],
   [op |-> "PeekFail"], [op |-> "Ring"], [op |-> "JoinFail", full |-> TRUE], [op |-> "OtherCall", b |-> TRUE], [op |-> "SetProof"]}
  \cup [op : {"JoinOk"}, st : {"Joined", "Pending"}, creator : {"none", Me, "a"}, good : {TRUE}]
  \cup [op : {"Ice"}, i : {"Connected", "Failed", "Disconnected"}]
  \cup {[op |-> "PeekOk", p |-> Peek(Sorted(S), <<>>, "E1")] : S \in SUBSET Devs}
  \cup [op : {"Key"}, u : {"a", "b"}, d : Devs \ {Local}, k : {1}, shape : {"ok"}]
MNext == \E x \in Ops : Fits(s, x) /\ Step(x) /\ UNCHANGED <<script, after>>
MSpec == MInit /\ [][MNext]_mvars
USpec == UInit /\ [][MNext]_mvars
MView == <<[s EXCEPT !.o = NoOut, !.spkts = 0, !.spkn = 0], given>>
Bound == TLCGet("level") <= Depth
\* the ones still in the call and only they can open what is sent, once the changeover is done
There(t) == RemoteUsers(t)
Forward == In(s) /\ ~s.rot.on => \A g \in given : g[2] = s.cur.l => g[1] \in There(s) \cup {Me}
\* everyone in the call can open what is sent
Served == In(s) /\ s.dhe => \A u \in There(s) : /\ \E g \in given : g[1] = u /\ g[2] = s.cur.l /\ g[3] <= s.cur.rc
                                                   /\ s.rot.on => <<u, s.rot.l, 0>> \in given
\* one who comes in cannot open what was sent before, one outside gets nothing
Newcomers == [][\A g \in given' \ given : /\ g[1] \in There(s')
                  /\ g[1] \notin There(s) /\ g[2] = s.cur.l => g[3] > s.cur.rc]_mvars
\* a key is accepted for a device from its owner only
Owned == [][\A x \in s'.got \ s.got : \/ op'.op = "Key" /\ op'.u = Owner(x[1]) /\ op'.d = x[1]
                                      \/ \E i \in DOMAIN s.early : s.early[i] = <<Owner(x[1]), x[1], x[2]>>]_mvars
\* the end comes once, and nothing after it
Ends == {i \in DOMAIN s'.o.life : s'.o.life[i][1] = "ended"}
Final == [][/\ s.gone => s'.gone /\ s'.o = NoOut
            /\ Ends # {} <=> s'.gone /\ ~s.gone
            /\ Ends # {} => Ends = {Len(s'.o.life)} /\ s'.conn = "NotConnected" /\ s'.join = "NotJoined"]_mvars
\* taking part keeps other calls out
Engaged == s.join # "NotJoined" => s.busy
\* no second question while one is open, short of the time limit; a reason to ask again is not lost
Asks == {i \in DOMAIN s'.o.peeks : s'.o.peeks[i][1] = "ask"}
OneQuestion == [][Asks # {} =>
                   \/ s.peek.st \in {"never", "updated", "waiting"} \/ s.peek.age >= 2
                   \/ op'.op \in {"Wait", "JoinOk"}
                   \/ s.peek.again /\ op'.op \in {"PeekOk", "Pushed"}]_mvars
NotLost == [][op'.op = "Hint" /\ ~s.gone => s'.peek.st \in {"requested", "waiting", "failed"} /\ (s'.peek.st = "requested" => Asks # {} \/ s'.peek.again)]_mvars
Rings == [][s'.o.ring # <<>> /\ s'.o.ring[1] = <<"cancel">> => s.ring = "sent"]_mvars
-----------------------------------------------------------------------------
\* random scripts
Pick(S) == RandomElement(S)
TFs == {TRUE, FALSE}
Beats == [am : {"n", "t", "f"}, vm : {"n", "t", "f"}, pr : {"n", "t", "f"}, ss : {"n", "t", "f"}, mb : {0, 0, 1, 10, 20}]
Subsets == {S \in SUBSET Devs : Cardinality(S) <= 5}
Order(S, b) == IF b THEN Sorted(S) ELSE Reverse2(Sorted(S))
WithMe == {S \in Subsets : Local \in S}
Pends == {<<>>, <<12>>, <<30>>, <<21, 12>>, <<30, 12, 31>>, <<40, 12>>}
Orders == {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<3, 1, 2>>, <<2, 3, 1>>, <<3, 2, 1>>, <<1, 3, 2>>}
HandLists == {<<>>, <<10>>, <<10, 20>>, <<20, 10, 1>>, <<1>>}
\* people who are there now, with preference
Someone(t) == IF t.remote = <<>> \/ Pick(1..5) = 1 THEN Pick(Devs) ELSE t.remote[Pick(DOMAIN t.remote)]
SomePeek(t) == IF Pick(1..6) = 1 THEN Peek(Order(Pick(Subsets), Pick(TFs)), Pick(Pends), Pick({"E1", "E2", ""}))
               ELSE Peek(Order(Pick(WithMe), Pick(TFs)), Pick({<<>>, <<>>, Pick(Pends)}), "E1")
KeyFor(d, x) == [op |-> "Key", u |-> IF x > 3 /\ Owner(d) # "" THEN Owner(d) ELSE Pick({Me, "a", "b", "c"}), d |-> d, k |-> Pick({1, 1, 2, 3}),
                 shape |-> IF x > 2 THEN "ok" ELSE Pick({"counter", "short", "nobody"})]
Known(t) == {x \in t.got : TRUE}
Talk(t, d0, k0) == IF Known(t) # {} /\ Pick(1..6) > 1 THEN Pick(Known(t)) ELSE <<d0, k0>>
Any2(t, x, y, d, w) ==
  CASE x <= 10 -> [op |-> IF t.asked > 0 THEN "PeekOk" ELSE "Pushed", p |-> SomePeek(t)]
    [] x <= 13 -> [op |-> "Pushed", p |-> SomePeek(t)]
    [] x <= 14 -> IF t.asked > 0 THEN [op |-> "PeekFail"] ELSE [op |-> "Hint"]
    [] x <= 15 -> [op |-> "Hint"]
    [] x <= 24 -> KeyFor(d, y)
    [] x <= 33 -> [op |-> "Beat", d |-> w[1], k |-> w[2], ts |-> Pick(1..9), hb |-> Pick(Beats)]
    [] x <= 34 -> [op |-> "LeaveRtp", d |-> w[1], k |-> w[2]]
    [] x <= 36 -> [op |-> "LeaveSig", u |-> IF y > 3 /\ Owner(d) # "" THEN Owner(d) ELSE Pick({"a", "b"}), d |-> d, g |-> IF y = 1 THEN "h" ELSE "g"]
    [] x <= 38 -> [op |-> "ReactIn", d |-> w[1], k |-> w[2], v |-> Pick({"x", "y", "long", "x"})]
    [] x <= 40 /\ t.mute = 0 -> [op |-> "MuteIn", d |-> w[1], k |-> w[2], target |-> IF y > 4 THEN Local ELSE d]
    [] x <= 42 -> LET n == Pick(Orders) IN [op |-> "Hint"]
    [] x <= 44 -> [op |-> "Speaker", ts |-> Pick(1..9), d |-> d]
    [] x <= 47 -> [op |-> "Muted", b |-> y > 4, by |-> Pick({0, 0, 10, 20})]
    [] x <= 48 -> [op |-> Pick({"Video", "Present"}), b |-> Pick(TFs)]
    [] x <= 50 -> [op |-> "Share", b |-> Pick(TFs)]
    [] x <= 52 -> [op |-> "AskMute", d |-> IF y = 1 THEN Local ELSE d]
    [] x <= 53 -> [op |-> "React", v |-> Pick({"x", "y", "long"})]
    [] x <= 55 -> [op |-> "Raise", b |-> Pick(TFs)]
    [] x <= 57 -> [op |-> "ReqVideo", reqs |-> <<[d |-> d, w |-> Pick({0, 640}), h |-> Pick({0, 480, 720})], [d |-> Pick(Devs), w |-> 640, h |-> Pick({480, 720})]>>, act |-> Pick({0, 1080})]
    [] x <= 58 -> [op |-> "DataMode", kbps |-> Pick({500, 20000, 1234})]
    [] x <= 59 -> IF y = 1 THEN [op |-> "Override", r |-> [min |-> 1, start |-> 2, max |-> Pick({3, 4})]] ELSE [op |-> "Frame"]
    [] x <= 60 -> [op |-> "ResendKeys"]
    [] x <= 62 -> [op |-> "Decide", u |-> Pick({"a", "b", "c"}), what |-> Pick({"approve", "deny"})]
    [] x <= 64 -> [op |-> "Remove", d |-> d, what |-> Pick({"remove", "block"})]
    [] x <= 66 -> [op |-> "Ring"]
    [] x <= 70 -> [op |-> "Frame"]
    [] x <= 73 -> [op |-> "FrameIn", d |-> w[1], k |-> w[2]]
    [] x <= 74 -> [op |-> "Ice", i |-> Pick({"New", "Checking", "Connected", "Completed", "Disconnected", "Failed", "Closed"})]
    [] x <= 75 -> [op |-> "Ice", i |-> Pick({"Connected", "Disconnected", "Checking"})]
    [] x <= 76 /\ y = 1 -> [op |-> Pick({"Removed", "Disconnect", "DisconnectTwice", "Leave", "Leave"})]
    [] x <= 77 -> [op |-> Pick({"Connect", "SetProof", "Join"})]
    [] x <= 78 -> [op |-> "SetMembers", m |-> Pick({<<"me", "a">>, <<"me", "a", "b", "c">>})]
    [] OTHER -> [op |-> "Wait"]
\* getting into the call
Way(t, y) ==
  IF t.conn = "NotConnected" /\ ~t.gone THEN [op |-> "Connect"]
  ELSE IF t.join = "NotJoined" /\ ~t.left /\ t.conn = "Connecting" THEN [op |-> "Join"]
  ELSE IF t.join = "Joining" THEN IF y = 1 THEN [op |-> "JoinFail", full |-> Pick(TFs)]
                                  ELSE [op |-> "JoinOk", st |-> Pick({"Joined", "Joined", "Pending"}), creator |-> Pick({"none", "me", "me", "a"}), good |-> Pick(1..12) > 1]
  ELSE IF t.conn = "Connecting" THEN [op |-> "Ice", i |-> "Connected"]
  ELSE IF t.kind = "group" /\ t.known = {} THEN [op |-> "SetMembers", m |-> <<"me", "a", "b", "c">>]
  ELSE IF t.peek.st = "waiting" THEN [op |-> "SetProof"]
  ELSE [op |-> "PeekOk", p |-> SomePeek(t)]
Settled(t) == t.conn \in {"Connected", "Reconnecting"} /\ In(t) /\ (t.kind = "link" \/ t.known # {}) /\ t.peek.st # "waiting"
Waited == Cardinality({i \in DOMAIN script : script[i].op = "Wait"})
Hands2(n, a, b, c, ss, w) ==
  LET h(i) == [list |-> IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE c, seq |-> ss[i], wrap |-> w[i]]
  IN [op |-> "Hands", q |-> [i \in 1..(IF n = <<>> THEN 1 ELSE Len(n)) |-> h(i)], order |-> n]
GNext ==
  /\ Len(script) < Depth /\ after < 3
  /\ \E x \in {Pick(1..84)}, y \in {Pick(1..7)}, z \in {Pick(1..10)}, d \in {Someone(s)}, k \in {Pick(1..3)} :
     \E w \in {Talk(s, d, k)} :
     \E n \in {Pick(Orders)}, a \in {Pick(HandLists)}, b \in {Pick(HandLists)}, c \in {Pick(HandLists)} :
     \E q1 \in {Pick(0..6)}, q2 \in {Pick(0..6)}, q3 \in {Pick(0..6)}, w1 \in {Pick(TFs)}, w2 \in {Pick(TFs)}, w3 \in {Pick(TFs)} :
     \E e \in {IF ~Settled(s) /\ ~s.gone /\ ~s.left /\ z > 3 THEN Way(s, z - 3)
               ELSE IF x \in {41, 42} THEN Hands2(n, a, b, c, <<q1, q2, q3>>, <<w1, w2, w3>>)
               ELSE IF x > 78 /\ (Waited >= Waits \/ s.gone) THEN [op |-> "Frame"]
               ELSE IF y = 1 /\ z = 1 THEN [op |-> "OtherCall", b |-> Pick(TFs)]
               ELSE Any2(s, x, y, d, w)} :
     IF Fits(s, e) THEN /\ Step(e) /\ script' = Append(script, e) /\ after' = IF s'.gone \/ s'.left THEN after + 1 ELSE 0
     ELSE UNCHANGED mvars
  /\ (script' # script /\ (Len(script') = Depth \/ after' = 3) => PrintT("SCRIPT " \o ToJson(script')))
GSpec == MInit /\ [][GNext]_mvars
=============================================================================
