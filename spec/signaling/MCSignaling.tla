----------------------------- MODULE MCSignaling -----------------------------
(* Messages as byte strings put together from pieces: well-formed fields of   *)
(* either message, fields nobody knows, groups, repeated and broken fields.   *)
(* Every string built is also a script for the driver.                        *)
EXTENDS Signaling, TLC, Json
CONSTANTS MaxPieces, Cut
Len2(tag, b) == <<tag * 8 + 2, Len(b)>> \o b
VarF(tag, d) == <<tag * 8>> \o d
Pieces == <<
    \* inside connection parameters
    Len2(4, Len2(1, <<1, 2>>) \o Len2(2, <<97>>)), Len2(4, <<>>), Len2(4, Len2(3, <<195, 169>>) \o VarF(5, <<255, 1>>)),
    Len2(4, Len2(2, <<195>>)), Len2(4, Len2(4, VarF(1, <<8>>)) \o Len2(7, <<>>) \o Len2(4, VarF(1, <<40>>))),
    Len2(4, VarF(5, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>)), Len2(4, VarF(1, <<1>>)), Len2(4, Len2(6, VarF(2, <<3>>))),
    \* candidates
    Len2(2, Len2(1, <<97, 61>>)), Len2(2, <<>>), Len2(2, Len2(1, <<>>)), Len2(2, Len2(1, <<237, 160, 128>>)),
    Len2(3, Len2(1, <<127, 0, 0, 1>>) \o VarF(2, <<210, 9>>)), Len2(3, VarF(2, <<255, 255, 3>>)), Len2(3, Len2(1, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>)),
    Len2(3, VarF(2, <<128, 128, 4>>)), Len2(3, Len2(1, <<1, 2, 3>>)), Len2(3, VarF(2, <<129, 128, 128, 128, 16>>)),
    \* anything
    VarF(9, <<128, 128, 0>>), <<9 * 8 + 3, 4 * 8 + 2, 0, 9 * 8 + 4>>, <<9 * 8 + 3, 10 * 8 + 4>>, <<9 * 8 + 4>>, <<4 * 8 + 4>>, <<73, 1, 2, 3, 4, 5, 6, 7, 8>>, <<77, 1, 2, 3, 4>>,
    <<0>>, <<34, 5, 1>>, <<9 * 8 + 6>>, <<162, 0>>, <<24>> >>
VARIABLES bytes, n
mvars == <<bytes, n>>
MInit == bytes = <<>> /\ n = 0
MNext == /\ n < MaxPieces /\ n' = n + 1
         /\ \E k \in DOMAIN Pieces, c \in 0..Cut : c < Len(Pieces[k]) /\ (c > 0 => n + 1 = MaxPieces) /\ bytes' = bytes \o SubSeq(Pieces[k], 1, Len(Pieces[k]) - c)
MSpec == MInit /\ [][MNext]_mvars
Emit == bytes = <<>> \/ PrintT("SCRIPT " \o ToJson(bytes))

\* laws of the reader
Concat == \A k \in DOMAIN Pieces :     \* two messages one after the other are a message, the later one overriding
            LET p == Pieces[k] IN
            (Connection(bytes) # <<>> /\ Connection(p) # <<>>) =>
                 LET c == Connection(bytes \o p) a == Connection(bytes)[1] b == Connection(p)[1] IN
                 /\ c # <<>>
                 /\ (b = <<>> => c[1] = a) /\ (a = <<>> => c[1] = b)
                 /\ (a # <<>> /\ b # <<>>) => c[1][1] = [f \in DOMAIN a[1] |-> IF f \in {"receive", "encode", "decode"} THEN a[1][f] \o b[1][f]
                                                                              ELSE IF b[1][f] = <<>> THEN a[1][f] ELSE b[1][f]]
RemovedIsAddress == \A x \in {Candidate(bytes)} : x.removed = <<>> \/ (Len(x.removed[1].ip) \in {4, 16} /\ x.removed[1].port \in 0..65535)
\* writing and reading back
WOpt(tag, o) == IF o = <<>> THEN <<>> ELSE Len2(tag, o[1])
WNum(tag, o) == IF o = <<>> THEN <<>> ELSE VarF(tag, IF o[1] = <<>> THEN <<0>> ELSE [i \in DOMAIN o[1] |-> IF i < Len(o[1]) THEN o[1][i] + 128 ELSE o[1][i]])
WCodecs(tag, cs) == FlattenSeq([i \in DOMAIN cs |-> Len2(tag, WNum(1, cs[i]))])
Write(p) == Len2(4, WOpt(1, p.public_key) \o WOpt(2, p.ice_ufrag) \o WOpt(3, p.ice_pwd) \o WCodecs(4, p.receive) \o WNum(5, p.bitrate) \o WCodecs(6, p.encode) \o WCodecs(7, p.decode))
Opts == {<<>>, <<<<>>>>, <<<<98>>>>}
Nums == {<<>>, <<<<>>>>, <<<<5, 1>>>>}
Cs == {<<>>, <<<<>>>>, <<<<<<8>>>>, <<>>>>}
Params0 == [public_key : Opts, ice_ufrag : Opts, ice_pwd : Opts, receive : Cs, bitrate : Nums, encode : Cs, decode : Cs]
ASSUME \A p \in Params0 : Connection(Write(p)) = <<<<p>>>>
=============================================================================
