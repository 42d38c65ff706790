----------------------------- MODULE MCMrpLive -----------------------------
(* R03, last sentence: over a network that may lose any packet but does not  *)
(* lose all copies for ever, everything sent is eventually delivered.        *)
(* Retransmission times are abstracted: every buffered packet is always due. *)
EXTENDS Mrp
CONSTANTS Msgs, Window
VARIABLE nv
mvars == <<ep, net, sentMsgs, dlvd, nv>>

MInit == nv = 1 /\ InitWith(Window, TRUE)
SendNext == nv <= Msgs /\ Len(ep[0].sbuf) < cap /\ Send(0, <<nv>>, FALSE, 0) /\ nv' = nv + 1
ResendOne(k) == k \in DOMAIN ep[0].sbuf /\ ep[0].sbuf[k].p \notin net[0]
              /\ net' = [net EXCEPT ![0] = @ \cup {ep[0].sbuf[k].p}]
              /\ UNCHANGED <<cap, mrg, now, ep, obs, sentMsgs, dlvd, lastAck, forged, nv>>
AckNext == ep[1].ack /\ SendAck(1, FALSE) /\ UNCHANGED nv
\* an arriving packet leaves the network; duplication is retransmission before arrival of the copy
Arrive(i, p) == /\ p \in net[1 - i]
                /\ LET s == ep[i] IN TRUE
                /\ Recv(i, p) /\ UNCHANGED nv
LoseAny(i, p) == p \in net[i] /\ Lose(i, p) /\ UNCHANGED nv
Pkts(i) == IF i = 1 THEN {<<k, -1, -1, <<k>>>> : k \in 1..Msgs} ELSE {<<-1, k, -1, <<>>>> : k \in 1..(Msgs + 1)}
LNext == \/ SendNext \/ AckNext
         \/ \E k \in 1..Window : ResendOne(k)
         \/ \E i \in E : \E p \in net[1 - i] : Arrive(i, p)
         \/ \E i \in E : \E p \in net[i] : LoseAny(i, p)
LSpec == /\ MInit /\ [][LNext]_<<vars, nv>>
         /\ WF_mvars(SendNext)
         /\ WF_<<vars, nv>>(AckNext)
         /\ \A k \in 1..Window : WF_mvars(ResendOne(k))
         /\ \A i \in E : \A p \in Pkts(i) : SF_<<vars, nv>>(Arrive(i, p))
LView == <<ep, net, sentMsgs, dlvd, nv, lastAck>>
Delivered == <>(Len(dlvd[1]) = Msgs)
AllAcked == <>[](Len(dlvd[1]) = Msgs /\ ep[0].sbuf = <<>>)
=============================================================================
