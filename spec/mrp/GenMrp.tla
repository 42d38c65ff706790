------------------------------- MODULE GenMrp -------------------------------
(* Generates stimuli for the real code from the model's behaviours: every    *)
(* sequence of inputs of length Depth (exhaustive mode), or random ones      *)
(* (TLC -simulate).  Packets are named by their position in the log of       *)
(* everything the peer transmitted.                                          *)
EXTENDS Mrp, Json
CONSTANTS Depth, MaxMsgs, Caps, Frags, BothWays, WithFail
VARIABLES hist, log, nv
gvars == <<vars, hist, log, nv>>

Senders == IF BothWays THEN E ELSE {0}
Fails == IF WithFail THEN {TRUE, FALSE} ELSE {FALSE}
GInit == /\ nv = 1 /\ log = [i \in E |-> <<>>]
         /\ \E c \in Caps : InitWith(c, TRUE) /\ hist = <<[cap |-> c, merge |-> TRUE]>>
Do(inp, i) ==
    /\ hist' = Append(hist, inp)
    /\ log' = IF "tx" \in DOMAIN obs' /\ obs'.res = "ok" THEN [log EXCEPT ![i] = @ \o obs'.tx] ELSE log
GNext ==
    /\ Len(hist) <= Depth
    /\ \/ \E i \in Senders, f \in Fails : /\ nv <= MaxMsgs /\ Send(i, <<nv>>, f, 1) /\ nv' = nv + 1
                            /\ Do([op |-> "Send", e |-> i, fail |-> f, to |-> 1], i)
       \/ \E i \in Senders, n \in Frags : /\ nv + n - 1 <= MaxMsgs /\ SendFrag(i, [k \in 1..n |-> <<nv + k - 1>>], 1)
                            /\ nv' = nv + n
                            /\ Do([op |-> "SendFrag", e |-> i, n |-> n, to |-> 1], i)
       \/ \E i \in E, f \in Fails : /\ ep[i].ack /\ SendAck(i, f) /\ UNCHANGED nv
                            /\ Do([op |-> "Ack", e |-> i, fail |-> f], i)
       \/ \E i \in Senders : /\ ep[i].sbuf # <<>> /\ Resend(i, 0, 1) /\ UNCHANGED nv
                             /\ hist' = Append(hist, [op |-> "Resend", e |-> i, failat |-> 0, to |-> 1])
                             \* retransmissions are copies of packets already in the log
                             /\ log' = [log EXCEPT ![i] = @ \o obs'.tx]
       \/ \E i \in E : \E k \in DOMAIN log[1 - i] :
             /\ \A m \in 1..(k - 1) : log[1 - i][m] # log[1 - i][k]
             /\ Recv(i, log[1 - i][k]) /\ UNCHANGED nv
             /\ Do([op |-> "Deliver", e |-> i, k |-> k], i)
       \/ /\ now < 2 /\ \E i \in E : ep[i].sbuf # <<>>
          /\ Tick(0, 1) /\ UNCHANGED nv /\ Do([op |-> "Tick", e |-> 0, dt |-> 1], 0)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth + 1 => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
