------------------------------ MODULE Signaling ------------------------------
(* What the messages of core/signaling.rs say.  An optional value is a        *)
(* sequence of length 0 or 1.  A message is <<what it says>>, or <<>> when    *)
(* the bytes are not a message.                                               *)
EXTENDS Wire
CatAll(ss) == FlattenSeq(ss)    \* several occurrences of a sub-message are one message
Codec(b) == LET r == Read(b, [t \in {1} |-> 0]) IN IF r.ok THEN <<[i \in DOMAIN Last1(With(r, 1)) |-> Low32(Last1(With(r, 1))[1])]>> ELSE <<>>
Codecs(bs) == IF \E i \in DOMAIN bs : Codec(bs[i]) = <<>> THEN <<>> ELSE <<[i \in DOMAIN bs |-> Codec(bs[i])[1]]>>
ParamTypes == [t \in 1..7 |-> IF t = 5 THEN 0 ELSE 2]
Params(b) ==
    LET r == Read(b, ParamTypes) IN
    IF ~r.ok THEN <<>>
    ELSE LET c4 == Codecs(With(r, 4)) c6 == Codecs(With(r, 6)) c7 == Codecs(With(r, 7)) IN
         IF c4 = <<>> \/ c6 = <<>> \/ c7 = <<>> \/ ~AllUtf8(With(r, 2)) \/ ~AllUtf8(With(r, 3)) THEN <<>>
         ELSE <<[public_key |-> Last1(With(r, 1)), ice_ufrag |-> Last1(With(r, 2)), ice_pwd |-> Last1(With(r, 3)),
                 receive |-> c4[1], bitrate |-> Last1(With(r, 5)), encode |-> c6[1], decode |-> c7[1]]>>
\* every occurrence of a repeated sub-message is read on its own, then they are merged
SubOk(bs, P(_)) == \A i \in DOMAIN bs : P(bs[i]) # <<>>
\* offers and answers: the version 4 parameters, if there are any
Connection(b) ==
    LET r == Read(b, [t \in {4} |-> 2]) IN
    IF ~r.ok THEN <<>>
    ELSE LET v == With(r, 4) IN
         IF ~SubOk(v, Params) THEN <<>> ELSE <<IF v = <<>> THEN <<>> ELSE Params(CatAll(v))>>

Sdp(b) == LET r == Read(b, [t \in {1} |-> 2]) IN IF r.ok /\ AllUtf8(With(r, 1)) THEN <<Last1(With(r, 1))>> ELSE <<>>
Addr(b) == LET r == Read(b, [t \in {1, 2} |-> IF t = 1 THEN 2 ELSE 0]) IN
           IF r.ok THEN <<[ip |-> Last1(With(r, 1)), port |-> [i \in DOMAIN Last1(With(r, 2)) |-> Low32(Last1(With(r, 2))[1])]]>> ELSE <<>>
\* a candidate: the description added and the address removed
Nothing == [sdp |-> <<>>, removed |-> <<>>]
Candidate(b) ==
    LET r == Read(b, [t \in {2, 3} |-> 2]) IN
    IF ~r.ok THEN Nothing
    ELSE LET a == With(r, 2) d == With(r, 3) IN
         IF ~SubOk(a, Sdp) \/ ~SubOk(d, Addr) THEN Nothing
         ELSE [sdp |-> IF a = <<>> THEN <<>> ELSE Sdp(CatAll(a))[1],
               removed |-> IF d = <<>> THEN <<>>
                           ELSE LET x == Addr(CatAll(d))[1] IN
                                IF x.ip = <<>> \/ Len(x.ip[1]) \notin {4, 16} \/ x.port = <<>> \/ Small(x.port[1], 65536) = 65536 THEN <<>>
                                ELSE <<[ip |-> x.ip[1], port |-> Small(x.port[1], 65536)]>>]

\* hangups: kind and, for kinds that concern another device, which
HangupKinds == <<"Normal", "AcceptedOnAnotherDevice", "DeclinedOnAnotherDevice", "BusyOnAnotherDevice", "NeedPermission">>
ReadHangup(t, dev) == IF t \notin 0..4 THEN [kind |-> "none", dev |-> <<>>]
                      ELSE [kind |-> HangupKinds[t + 1], dev |-> IF t = 0 THEN <<>> ELSE <<dev>>]
=============================================================================
