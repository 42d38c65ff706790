------------------------------- MODULE MCMrp -------------------------------
(* Exhaustive exploration with small constants; also emits stimuli (see Emit). *)
EXTENDS Mrp
CONSTANTS MaxMsgs, MaxNow, Caps, Fails, Frags, BothWays
VARIABLE nv     \* next payload value
mvars == <<vars, nv>>
MView == <<View, nv>>

Senders == IF BothWays THEN E ELSE {0}
MInit == nv = 1 /\ \E c \in Caps : InitWith(c, TRUE)
MNext ==
    \/ \E i \in Senders, f \in Fails :
        nv <= MaxMsgs /\ Send(i, <<nv>>, f, 1) /\ nv' = nv + 1
    \/ \E i \in Senders, n \in Frags :
        nv + n - 1 <= MaxMsgs /\ SendFrag(i, [k \in 1..n |-> <<nv + k - 1>>], 1) /\ nv' = nv + n
    \/ \E i \in E, f \in Fails : ep[i].ack /\ SendAck(i, f) /\ UNCHANGED nv
    \/ \E i \in Senders, f \in {0, 1} : ep[i].sbuf # <<>> /\ Resend(i, f, 1) /\ UNCHANGED nv
    \/ \E i \in E : \E p \in net[1 - i] : Recv(i, p) /\ UNCHANGED nv
    \/ \E i \in E : \E p \in net[i] : Lose(i, p) /\ UNCHANGED nv
    \/ now < MaxNow /\ Tick(0, 1) /\ UNCHANGED nv
MSpec == MInit /\ [][MNext]_mvars

\* refused or failed sends leave the endpoint as it was
RefusedNoEffect == [][\A i \in E : obs'.res \in {"full", "fail"} /\ sentMsgs' = sentMsgs /\ nv' # nv
                        => ep' = ep]_mvars
\* windows only move forward
Monotone == [][\A i \in E : ep'[i].left >= ep[i].left /\ ep'[i].rleft >= ep[i].rleft]_mvars
=============================================================================
