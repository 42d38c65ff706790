---------------------------- MODULE MCEventStream ----------------------------
(* The algorithm: a channel; closing drains it and then drops it, with pushes *)
(* slipping in between the two being lost.                                    *)
EXTENDS EventStream, Json
CONSTANTS Producers, MaxItems, Depth, Gen
VARIABLES chan, rest, dropped, busy, n, ok, hist
mvars == <<vars, chan, rest, dropped, busy, n, ok, hist>>
Do(i) == hist' = IF Gen THEN Append(hist, i) ELSE hist
MInit == /\ Init0 /\ chan = <<>> /\ rest = <<>> /\ dropped = FALSE /\ busy = <<>> /\ n = 0 /\ ok = TRUE
         /\ hist = <<>>
Enter(p) == /\ p \notin live /\ n = 0 /\ (\A i \in DOMAIN hist : hist[i].op = "join") /\ Join(p) /\ Do([op |-> "join", p |-> p]) /\ UNCHANGED <<chan, rest, dropped, busy, n, ok>>
Leave(p) == /\ p \in live /\ p \notin DOMAIN busy /\ Quit(p) /\ Do([op |-> "quit", p |-> p])
            /\ UNCHANGED <<chan, rest, dropped, busy, n, ok>>
Push(p) == /\ p \in live /\ p \notin DOMAIN busy /\ n < MaxItems /\ n' = n + 1 /\ busy' = (p :> [x |-> n + 1, st |-> "new"]) @@ busy
           /\ SendStart(n + 1) /\ Do([op |-> "push", p |-> p]) /\ UNCHANGED <<chan, rest, dropped, ok>>
\* the channel takes the item, or is gone
Take(p) == /\ p \in DOMAIN busy /\ busy[p].st = "new"
           /\ IF dropped THEN chan' = chan /\ busy' = [busy EXCEPT ![p].st = "no"]
              ELSE chan' = Append(chan, busy[p].x) /\ busy' = [busy EXCEPT ![p].st = "yes"]
           /\ UNCHANGED <<vars, rest, dropped, n, ok, hist>>
Return(p) == /\ p \in DOMAIN busy /\ busy[p].st # "new"
             /\ LET y == busy[p].st = "yes" IN ok' = (ok /\ MaySend(busy[p].x, y)) /\ SendDone(busy[p].x, y)
             /\ busy' = [q \in DOMAIN busy \ {p} |-> busy[q]] /\ UNCHANGED <<chan, rest, dropped, n, hist>>
Receive == /\ phase = "open" /\ chan # <<>> /\ ok' = (ok /\ MayRecv(Head(chan))) /\ Recv(Head(chan)) /\ chan' = Tail(chan)
           /\ Do([op |-> "recv"]) /\ UNCHANGED <<rest, dropped, busy, n>>
ReceiveRest == /\ phase = "closed" /\ rest # <<>> /\ ok' = (ok /\ MayRecv(Head(rest))) /\ Recv(Head(rest)) /\ rest' = Tail(rest)
               /\ Do([op |-> "recv"]) /\ UNCHANGED <<chan, dropped, busy, n>>
ReceiveEnd == /\ \/ phase = "closed" /\ rest = <<>>
                 \/ phase = "open" /\ live = {} /\ chan = <<>>
              /\ ok' = (ok /\ MayEnd) /\ Do([op |-> "recv"]) /\ UNCHANGED <<vars, chan, rest, dropped, busy, n>>
Close == /\ phase = "open" /\ CloseStart /\ Do([op |-> "close"]) /\ UNCHANGED <<chan, rest, dropped, busy, n, ok>>
Drain == /\ phase = "closing" /\ ~dropped /\ rest = <<>> /\ chan # <<>> /\ rest' = chan /\ chan' = <<>>
         /\ UNCHANGED <<vars, dropped, busy, n, ok, hist>>
Drop == /\ phase = "closing" /\ ~dropped /\ (rest # <<>> \/ chan = <<>>) /\ dropped' = TRUE
        /\ UNCHANGED <<vars, chan, rest, busy, n, ok, hist>>
Closed == /\ phase = "closing" /\ dropped /\ CloseDone /\ UNCHANGED <<chan, rest, dropped, busy, n, ok, hist>>
Calm == ~Gen \/ (busy = <<>> /\ phase # "closing")
MNext == Len(hist) < Depth /\
         \/ Calm /\ (Receive \/ ReceiveRest \/ ReceiveEnd \/ Close \/ \E p \in Producers : Enter(p) \/ Leave(p) \/ Push(p))
         \/ Drain \/ Drop \/ Closed \/ \E p \in Producers : Take(p) \/ Return(p)
MSpec == MInit /\ [][MNext]_mvars
Holds == ok
Emit == ~Gen \/ Len(hist) < Depth \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
