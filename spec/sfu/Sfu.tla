-------------------------------- MODULE Sfu --------------------------------
(* Requests to the calling server (lite/sfu.rs, lite/call_links.rs): which    *)
(* request an operation makes, and what an answer to it means.                *)
(*                                                                            *)
(* A JSON value is [t |-> "s" | "n" | "b" | "null" | "a" | "o", v |-> ...],   *)
(* numbers as text, objects as sequences of [k, v].  Further strings:         *)
(*   [t |-> "sealed", key, name]  a name sealed under a root key              *)
(*   [t |-> "mid", m]             how the server calls group member m         *)
(*   [t |-> "uid", crn, user]     how it calls a user of the link with crn    *)
(* A body is a JSON value, [t |-> "raw", v] (not JSON) or [t |-> "bytes"] (no *)
(* text at all).  A root key is [v |-> 0 or 1, crn, epoch ("none": not yet    *)
(* created; version 0: "")].                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Room == [A |-> "5120326cd83ceace76acd4f9b28e8e9696d7fead0ff665f6159ce2843eccdc6f",
         B |-> "ebc0004955414a94c7ff9b4c6880bc0234c018f18a6485847f1b7adeba53f87c"]
Base64 == ("" :> "") @@ ("p" :> "cA==") @@ ("pa" :> "cGE=") @@ ("pas" :> "cGFz") @@ ("ÿÿ?" :> "w7/Dvz8=")
       @@ ("::" :> "Ojo=") @@ (":" :> "Og==") @@ ("a:a:b" :> "YTphOmI=") @@ ("abc:abc" :> "YWJjOmFiYw==") @@ ("é:é:1" :> "w6k6w6k6MQ==")
Hex == ("" :> "") @@ ("p" :> "70") @@ ("pa" :> "7061") @@ ("pas" :> "706173") @@ ("ÿÿ?" :> "c3bfc3bf3f")
Key32 == "000102030405060708090a0b0c0d0e0fa0a1a2a3a4a5a6a7a8a9aaabacadaeff"

Usable(key) == key.epoch # "none"
\* ------------------------------------------------------------------ requests
KeyHeaders(key) == {<<"X-Room-Id", Room[key.crn]>>} \cup (IF key.v = 1 /\ Usable(key) THEN {<<"X-Epoch", key.epoch>>} ELSE {})
GroupHeaders(op) == {<<"Authorization", op.auth>>}
    \cup (IF op.key # <<>> THEN KeyHeaders(op.key[1]) ELSE IF op.room # "" THEN {<<"X-Room-Id", op.room>>} ELSE {})
LinkHeaders(op) == {<<"Authorization", (IF op.kind = "create" THEN "Bearer create." ELSE "Bearer auth.") \o Base64[op.auth]>>,
                    <<"Content-Type", "application/json">>} \cup KeyHeaders(op.key[1])
F(k, v) == {<<k, "s", v>>}
OptF(k, o, f(_)) == IF o = <<>> THEN {} ELSE {f(o[1])}
Rest(op) == IF op.restrictions = "" THEN {} ELSE F("restrictions", op.restrictions)
Request(op) ==
    CASE op.kind = "peek" -> [method |-> "GET", headers |-> GroupHeaders(op), body |-> {}]
      [] op.kind = "join" -> [method |-> "PUT", headers |-> GroupHeaders(op) \cup {<<"Content-Type", "application/json">>},
                              body |-> OptF("adminPasskey", op.passkey, LAMBDA p : <<"adminPasskey", "s", Base64[p]>>)
                                  \cup F("iceUfrag", op.ufrag) \cup F("icePwd", op.pwd)
                                  \cup F("dhePublicKey", Hex[op.dhe]) \cup F("hkdfExtraInfo", Hex[op.hkdf])]
      [] op.kind = "read" -> [method |-> "GET", headers |-> LinkHeaders(op), body |-> {}]
      [] op.kind = "create" -> [method |-> "PUT", headers |-> LinkHeaders(op),
                                body |-> F("adminPasskey", Base64[op.passkey]) \cup F("zkparams", Base64[op.zk]) \cup Rest(op)]
      [] op.kind = "update" -> [method |-> "PUT", headers |-> LinkHeaders(op),
                                body |-> F("adminPasskey", Base64[op.passkey]) \cup Rest(op)
                                    \cup OptF("name", op.name, LAMBDA n : <<"name", "s", Base64[n]>>)
                                    \cup OptF("revoked", op.revoked, LAMBDA r : <<"revoked", "b", IF r THEN "true" ELSE "false">>)]
      [] op.kind = "delete" -> [method |-> "DELETE", headers |-> LinkHeaders(op), body |-> F("adminPasskey", Base64[op.passkey])]
Group(op) == op.kind \in {"peek", "join"}
Url(op) == op.base \o (IF Group(op) THEN "/v2/conference/participants" ELSE "/v1/call-link")

Err(c) == [err |-> c]
\* decided without the server
Local(op) == CASE op.key # <<>> /\ op.kind # "create" /\ ~Usable(op.key[1]) -> <<Err(704)>>
               [] op.kind = "create" /\ Usable(op.key[1]) -> <<Err(705)>>
               [] OTHER -> <<>>

\* ------------------------------------------------------------------ JSON
Has(o, k) == \E i \in DOMAIN o.v : o.v[i].k = k
Get(o, k) == o.v[CHOOSE i \in DOMAIN o.v : o.v[i].k = k].v
Str(v) == v.t \in {"s", "sealed", "mid", "uid"}
U16s == {"0", "16", "443", "10000", "65535"}
U32s == U16s \cup {"65536", "287454020", "4294967295"}
\* as seconds since 1970: only what a clock can show
Secs == U32s \cup {"4294967296", "9223372036854775807"}
U16(v) == v.t = "n" /\ v.v \in U16s
U32(v) == v.t = "n" /\ v.v \in U32s
Time(v) == v.t = "n" /\ v.v \in Secs
Bool(v) == v.t = "b"
Ips == {"10.0.0.1", "::1", "fd00::2"}
Ip(v) == v.t = "s" /\ v.v \in Ips
Hex32(v) == v.t = "s" /\ v.v = Key32
ListOf(v, P(_)) == v.t = "a" /\ \A i \in DOMAIN v.v : P(v.v[i])
Req(o, k, P(_)) == Has(o, k) /\ P(Get(o, k))
Opt(o, k, P(_)) == Has(o, k) => Get(o, k).t = "null" \/ P(Get(o, k))
\* may be left out, but not null
Def(o, k, P(_)) == Has(o, k) => P(Get(o, k))

IsDev(v) == v.t = "o" /\ Opt(v, "opaqueUserId", Str) /\ Req(v, "demuxId", U32)
IsLink(v) == v.t = "o" /\ Req(v, "name", Str) /\ Req(v, "restrictions", Str) /\ Req(v, "revoked", Bool)
             /\ Req(v, "expiration", Time) /\ Opt(v, "epoch", U32)
IsPeek(v) == v.t = "o" /\ Opt(v, "conferenceId", Str) /\ Opt(v, "maxDevices", U32) /\ Req(v, "participants", LAMBDA l : ListOf(l, IsDev))
             /\ Opt(v, "creator", Str) /\ Def(v, "pendingClients", LAMBDA l : ListOf(l, IsDev)) /\ Opt(v, "callLinkState", IsLink)
IsJoin(v) == v.t = "o" /\ Req(v, "demuxId", U32) /\ Req(v, "ips", LAMBDA l : ListOf(l, Ip)) /\ Req(v, "port", U16) /\ Req(v, "portTcp", U16)
             /\ Opt(v, "portTls", U16) /\ Opt(v, "hostname", Str) /\ Req(v, "iceUfrag", Str) /\ Req(v, "icePwd", Str)
             /\ Req(v, "dhePublicKey", Hex32) /\ Def(v, "callCreator", Str) /\ Req(v, "conferenceId", Str) /\ Req(v, "clientStatus", Str)

\* ------------------------------------------------------------------ identities
\* resolver: [kind |-> "map", members: sequence of [user, m]] or [kind |-> "link", crn]
Resolve(r, v) ==
    IF r.kind = "map" THEN
        IF v.t = "mid" /\ \E i \in DOMAIN r.members : r.members[i].m = v.m
        THEN r.members[CHOOSE i \in DOMAIN r.members : r.members[i].m = v.m /\ \A j \in 1..(i - 1) : r.members[j].m # v.m].user ELSE ""
    ELSE IF v.t = "uid" /\ v.crn = r.crn THEN v.user ELSE ""
Name(key, v) == IF v.t = "sealed" /\ v.key.v = key.v /\ v.key.crn = key.crn THEN v.name ELSE ""

\* ------------------------------------------------------------------ answers
Val(v) == v.v
OptVal(o, k) == IF Has(o, k) /\ Get(o, k).t # "null" THEN <<Val(Get(o, k))>> ELSE <<>>
LinkState(key, o) ==
    [name |-> Name(key, Get(o, "name")),
     restrictions |-> LET r == Get(o, "restrictions") IN IF r.t = "s" /\ r.v \in {"none", "adminApproval"} THEN r.v ELSE "unknown",
     revoked |-> Val(Get(o, "revoked")), expiration |-> Val(Get(o, "expiration")), key |-> key]
Dev(r, d) == [demux |-> Val(Get(d, "demuxId")),
              user |-> IF Has(d, "opaqueUserId") THEN Resolve(r, Get(d, "opaqueUserId")) ELSE ""]
Uniq(s) == SelectSeq([i \in DOMAIN s |-> IF \E j \in 1..(i - 1) : s[j] = s[i] THEN "" ELSE s[i]], LAMBDA u : u # "")
PeekOf(era, max, devs, pend, creator, link) ==
    [era |-> era, max |-> max, devices |-> devs, pending |-> pend, creator |-> creator, link |-> link,
     users |-> {devs[i].user : i \in DOMAIN devs} \ {""}, asking |-> Uniq([i \in DOMAIN pend |-> pend[i].user]),
     count |-> Len(devs) + Len(pend)]
Devs(r, l) == [i \in DOMAIN l |-> Dev(r, l[i])]
PeekInfo(op, o) ==
    PeekOf(OptVal(o, "conferenceId"), OptVal(o, "maxDevices"), Devs(op.resolver, Get(o, "participants").v),
           IF Has(o, "pendingClients") THEN Devs(op.resolver, Get(o, "pendingClients").v) ELSE <<>>,
           IF Has(o, "creator") THEN Resolve(op.resolver, Get(o, "creator")) ELSE "",
           IF Has(o, "callLinkState") /\ Get(o, "callLinkState").t # "null" /\ op.key # <<>> THEN <<LinkState(op.key[1], Get(o, "callLinkState"))>> ELSE <<>>)
NoCall == PeekOf(<<>>, <<>>, <<>>, <<>>, "", <<>>)
Addrs(o, port) == LET ips == Get(o, "ips").v IN [i \in DOMAIN ips |-> <<ips[i].v, port>>]
Joined(op, o) ==
    [demux |-> Val(Get(o, "demuxId")), udp |-> Addrs(o, Val(Get(o, "port"))), tcp |-> Addrs(o, Val(Get(o, "portTcp"))),
     tls |-> IF OptVal(o, "portTls") = <<>> THEN <<>> ELSE Addrs(o, OptVal(o, "portTls")[1]),
     hostname |-> OptVal(o, "hostname"), ufrag |-> Val(Get(o, "iceUfrag")), pwd |-> Val(Get(o, "icePwd")), dhe |-> Key32,
     creator |-> IF Has(o, "callCreator") THEN Resolve(op.resolver, Get(o, "callCreator")) ELSE "",
     era |-> Val(Get(o, "conferenceId")),
     status |-> LET s == Get(o, "clientStatus") IN IF s.t = "s" /\ s.v = "ACTIVE" THEN "active" ELSE IF s.t = "s" /\ s.v = "BLOCKED" THEN "blocked" ELSE "pending"]
\* a created link's key is completed by the epoch the server gives; without one it is of the old kind
Created(key, o) == LET e == OptVal(o, "epoch") IN
                   IF e = <<>> THEN [v |-> 0, crn |-> key.crn, epoch |-> ""] ELSE [v |-> 1, crn |-> key.crn, epoch |-> e[1]]
Reason(b) == IF b.t = "o" /\ Req(b, "reason", LAMBDA r : r.t = "s") THEN Get(b, "reason").v ELSE ""
\* ans: [fail |-> TRUE] (no answer) or [fail |-> FALSE, code, body]
Outcome(op, ans) ==
    IF ans.fail THEN Err(602)
    ELSE IF ans.code \notin 200..299
    THEN IF op.kind = "peek" /\ ans.code = 404
         THEN IF ans.body.t = "raw" /\ ans.body.v = "" THEN [peek |-> NoCall]
              ELSE CASE Reason(ans.body) = "expired" -> Err(703) [] Reason(ans.body) = "invalid" -> Err(704) [] OTHER -> Err(404)
         ELSE Err(ans.code)
    ELSE CASE op.kind = "peek" -> IF IsPeek(ans.body) THEN [peek |-> PeekInfo(op, ans.body)] ELSE Err(702)
           [] op.kind = "join" -> IF IsJoin(ans.body) THEN [join |-> Joined(op, ans.body)] ELSE Err(702)
           [] op.kind = "delete" -> IF ans.body.t = "o" THEN [empty |-> TRUE] ELSE Err(702)
           [] op.kind = "create" -> IF IsLink(ans.body) THEN [link |-> LinkState(Created(op.key[1], ans.body), ans.body)] ELSE Err(702)
           [] OTHER -> IF IsLink(ans.body) THEN [link |-> LinkState(op.key[1], ans.body)] ELSE Err(702)

\* the same information arriving over a call's data channel; members that may be missing are sequences
IsProto(p) == /\ \A i \in DOMAIN p.devices : p.devices[i].demux # <<>>
              /\ \A i \in DOMAIN p.pending : p.pending[i].demux # <<>>
              /\ p.link # <<>> => \A f \in {"name", "restrictions", "revoked", "expiration"} : p.link[1][f] # <<>>
              /\ p.link # <<>> => p.link[1].expiration[1] \in Secs
ProtoDevs(r, l) == [i \in DOMAIN l |-> [demux |-> l[i].demux[1], user |-> IF l[i].id = <<>> THEN "" ELSE Resolve(r, l[i].id[1])]]
ProtoInfo(op, p) ==
    IF ~IsProto(p) THEN [err |-> 0]
    ELSE [peek |-> PeekOf(p.era, p.max, ProtoDevs(op.resolver, p.devices), ProtoDevs(op.resolver, p.pending),
            IF p.creator = <<>> THEN "" ELSE Resolve(op.resolver, p.creator[1]),
            IF p.link = <<>> \/ op.key = <<>> THEN <<>>
            ELSE LET k == op.key[1] s == p.link[1] IN
                 <<[name |-> Name(k, s.name[1]), restrictions |-> IF s.restrictions[1] = 1 THEN "adminApproval" ELSE "none",
                    revoked |-> s.revoked[1], expiration |-> s.expiration[1], key |-> k]>>)]
=============================================================================
