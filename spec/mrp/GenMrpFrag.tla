----------------------------- MODULE GenMrpFrag -----------------------------
(* Every short sequence of fragments a (possibly confused) peer can put on the wire: next or *)
(* next but one packet, each announcing a fragment count or not.                             *)
EXTENDS Mrp, Json
CONSTANTS Depth, Caps, Nums
VARIABLES hist
GInit == \E c \in Caps : InitWith(c, TRUE) /\ hist = <<[cap |-> c, merge |-> TRUE]>>
GNext ==
    /\ Len(hist) <= Depth
    /\ \E o \in 0..1, n \in Nums :
         LET q == ep[0].rleft + o
             np == IF n = 99 THEN -1 ELSE n IN   \* 99: no count announced
         /\ Recv(0, <<q, -1, np, <<Len(hist)>>>>)
         /\ hist' = Append(hist, [op |-> "Inject", e |-> 0, seq |-> q, ack |-> -1, np |-> np])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth + 1 => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
