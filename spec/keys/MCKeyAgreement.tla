--------------------------- MODULE MCKeyAgreement ---------------------------
EXTENDS KeyAgreement, TLC, Json
CONSTANT Record
V2 == {<<"a", "b">>, <<"b", "a">>}
V4 == {<<"a", "b">>, <<"b", "a">>, <<"a", "x">>, <<"x", "b">>}
VARIABLES script, hadOld
mvars == <<vars, script, hadOld>>
Rec(e) == script' = IF Record THEN Append(script, e) ELSE script
MInit == Init /\ script = <<>> /\ hadOld = FALSE
MNext ==
    \/ Call /\ hadOld' = Answered(1) /\ Rec([op |-> "Call"])
    \/ \E d \in Devices, h \in Hows, v \in Views :
        \/ Offer(d, h, v) /\ UNCHANGED hadOld /\ Rec([op |-> "Offer", d |-> d, how |-> h, ids |-> v])
        \/ Answer(d, h, v, hadOld) /\ UNCHANGED hadOld /\ Rec([op |-> "Answer", d |-> d, how |-> h, ids |-> v])
Done == call = MaxCalls /\ DOMAIN aEnd = Devices
MSpec == MInit /\ [][MNext]_mvars
\* scripts are printed when everybody has answered
GNext == MNext /\ (Done' => PrintT("SCRIPT " \o ToJson(script')))
GSpec == MInit /\ [][GNext]_mvars
=============================================================================
