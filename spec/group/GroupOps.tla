------------------------------- MODULE GroupOps -------------------------------
(* A stimulus as a record, and what it does to the client.                   *)
EXTENDS Group

Clear(s) == [s EXCEPT !.o = NoOut]
\* m is understood only with a key accepted for the device it comes from
From(s, op, t) == Then(IF Heard(s, op.d, op.k) THEN t ELSE s, op.d)
Effect(s, op) ==
  CASE op.op = "Connect" -> Connect(s)
    [] op.op = "Join" -> Join(s)
    [] op.op = "Leave" -> LeaveNow(s)
    [] op.op \in {"Disconnect", "DisconnectTwice"} -> Disconnect(s)
    [] op.op = "SetProof" -> SetProof(s)
    [] op.op = "SetMembers" -> SetMembers(s, Els(op.m))
    [] op.op = "Muted" -> MutedBy(s, op.b, op.by)
    [] op.op = "Video" -> SetVideo(s, op.b)
    [] op.op = "Present" -> Present(s, op.b)
    [] op.op = "Share" -> Share(s, op.b)
    [] op.op = "AskMute" -> AskMute(s, op.d)
    [] op.op = "React" -> React(s, op.v)
    [] op.op = "Raise" -> Raise(s, op.b)
    [] op.op = "ReqVideo" -> ReqVideo(s, op.reqs, op.act)
    [] op.op = "DataMode" -> DataMode(s, op.kbps)
    [] op.op = "Override" -> Override(s, op.r)
    [] op.op = "ResendKeys" -> ResendKeys(s)
    [] op.op = "Decide" -> Decide(s, op.u, op.what)
    [] op.op = "Remove" -> Admin(s, op.what, op.d)
    [] op.op = "Ring" -> RingNow(s)
    [] op.op = "JoinOk" -> JoinOk(s, op.st, op.creator, op.good)
    [] op.op = "JoinFail" -> JoinFail(s, op.full)
    [] op.op = "Ice" -> Ice(s, op.i)
    [] op.op = "PeekOk" -> PeekOk(s, op.p)
    [] op.op = "PeekFail" -> PeekFail(s)
    [] op.op = "Pushed" -> Pushed(s, op.p)
    [] op.op = "Hint" -> Hint(s)
    [] op.op = "Removed" -> Removed(s)
    [] op.op = "Hands" -> HandsAll(s, op.q)
    [] op.op = "Speaker" -> Speaker(s, op.ts, op.d)
    [] op.op = "Key" -> KeyMessage(s, op.u, op.d, op.k, op.shape)
    [] op.op = "LeaveSig" -> LeavingSignal(s, op.u, op.d, op.g)
    [] op.op = "Beat" -> From(s, op, HbFrom(s, op.d, op.ts, op.hb))
    [] op.op = "LeaveRtp" -> From(s, op, Leaving(s, "?", op.d))
    [] op.op = "ReactIn" -> From(s, op, ReactFrom(s, op.d, op.v))
    [] op.op = "MuteIn" -> From(s, op, MuteReq(s, op.d, op.target))
    [] op.op = "Wait" -> Wait(s)
    [] OTHER -> s
Do(s, op) ==
  LET t == Clear(s) IN
  IF op.op = "OtherCall" THEN OtherCall(t, op.b) ELSE IF s.gone THEN t ELSE Effect(t, op)

\* when the model says something definite about it
Fits(s, op) ==
  CASE op.op = "Join" -> s.conn = "Connecting" /\ ~s.left
    [] op.op = "Leave" -> ~s.left
    [] op.op = "JoinOk" -> s.join = "Joining"
    [] op.op = "JoinFail" -> s.join = "Joining"
    [] op.op = "OtherCall" -> s.join = "NotJoined"
    [] op.op \in {"PeekOk", "PeekFail"} -> s.asked > 0 /\ ~s.gone
    [] op.op = "Pushed" -> (s.kind = "link" /\ s.known = {}) \/ ({Owner(d) : d \in Els(op.p.devs) \cup Els(op.p.pend)} \subseteq (s.known \cup {""}))
    [] op.op = "Wait" -> ~Unsure(s)
    [] op.op = "Muted" -> op.by # 0 => op.b
    \* the simulated media stack refuses to send before there is an answer
    [] op.op = "Override" -> s.dhe
    [] OTHER -> TRUE
=============================================================================
