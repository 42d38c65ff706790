------------------------------- MODULE MCSfu -------------------------------
EXTENDS Sfu, Json
CONSTANTS Wide
S(x) == [t |-> "s", v |-> x]
N(x) == [t |-> "n", v |-> x]
B(x) == [t |-> "b", v |-> x]
Null == [t |-> "null"]
A(x) == [t |-> "a", v |-> x]
O(x) == [t |-> "o", v |-> x]
KV(k, x) == [k |-> k, v |-> x]
Mid(m) == [t |-> "mid", m |-> m]
Uid(c, u) == [t |-> "uid", crn |-> c, user |-> u]
K(v, c, e) == [v |-> v, crn |-> c, epoch |-> e]
A0 == K(0, "A", "") A1 == K(1, "A", "7") A1n == K(1, "A", "none") B1 == K(1, "B", "4294967295")
Keys == {A0, A1, A1n, B1, K(0, "B", "")}
Sealed(k, n) == [t |-> "sealed", key |-> k, name |-> n]

\* ------------------------------------------------------------------ operations
Map == [kind |-> "map", members |-> <<[user |-> "u1", m |-> "m1"], [user |-> "u2", m |-> "m2"], [user |-> "u3", m |-> "m1"]>>]
Link(c) == [kind |-> "link", crn |-> c]
G(kind) == [kind |-> kind, base |-> "https://sfu.example", slashes |-> 0, key |-> <<>>, room |-> "", auth |-> "Basic x", resolver |-> Map,
            passkey |-> <<>>, ufrag |-> "u/+", pwd |-> "p w", dhe |-> "pas", hkdf |-> "ÿÿ?"]
L(kind) == [kind |-> kind, base |-> "https://sfu.example", slashes |-> 0, key |-> <<IF kind = "create" THEN A1n ELSE A1>>, auth |-> "pas",
            passkey |-> "pa", zk |-> "ÿÿ?", restrictions |-> "", name |-> <<>>, revoked |-> <<>>]
Texts == {"", "p", "pas", "ÿÿ?"}
Default(kind) == IF kind \in {"peek", "join"} THEN G(kind) ELSE L(kind)
KeyOf(op) == IF op.key = <<>> THEN A1 ELSE op.key[1]
Ops(kind) == LET d == Default(kind) IN
    {[d EXCEPT !.slashes = n, !.base = b] : n \in 0..3, b \in {"https://sfu.example", "http://h:8/x"}}
    \cup {[d EXCEPT !.key = <<k>>] : k \in Keys}
    \cup (IF kind \in {"peek", "join"}
          THEN {[d EXCEPT !.key = k, !.room = r, !.resolver = v] : k \in {<<>>} \cup {<<k>> : k \in Keys}, r \in {"", "abcd"}, v \in {Map, Link("A"), Link("B")}}
               \cup {[d EXCEPT !.passkey = p, !.ufrag = u, !.dhe = h] : p \in {<<>>} \cup {<<x>> : x \in Texts}, u \in {"", "q\"\\z"}, h \in Texts}
               \cup {[d EXCEPT !.pwd = u, !.hkdf = h, !.auth = a] : u \in {"", "é"}, h \in Texts, a \in {"", "Bearer auth.zz"}}
          ELSE {[d EXCEPT !.auth = a, !.passkey = p, !.zk = z] : a, p, z \in Texts}
               \cup {[d EXCEPT !.restrictions = r, !.revoked = v, !.name = n, !.key = <<k>>] :
                        r \in {"", "none", "adminApproval"}, v \in {<<>>, <<TRUE>>, <<FALSE>>}, n \in {<<>>, <<"">>, <<"pas">>}, k \in {A0, A1, A1n}})
Kinds == {"peek", "join", "read", "create", "update", "delete"}

\* ------------------------------------------------------------------ answers
DevV(id, n) == O(<<KV("opaqueUserId", id), KV("demuxId", N(n))>>)
Who(op) == IF op.kind = "peek" /\ op.resolver.kind = "link" THEN <<Uid("A", "u1"), Uid("B", "u2"), Uid("A", "u2")>> ELSE <<Mid("m1"), Mid("m3"), Mid("m2")>>
LinkV(key) == O(<<KV("name", Sealed(key, "Talk")), KV("restrictions", S("adminApproval")), KV("revoked", B(FALSE)), KV("expiration", N("287454020"))>>)
\* as [field, value] in a good answer
Good(op) ==
    CASE op.kind = "peek" -> LET w == Who(op) IN
          <<KV("conferenceId", S("era")), KV("maxDevices", N("16")),
            KV("participants", A(<<DevV(w[1], "16"), DevV(w[2], "65536"), DevV(w[1], "4294967295"), DevV(S("x"), "0")>>)),
            KV("creator", w[3]), KV("pendingClients", A(<<DevV(w[3], "16"), DevV(S("y"), "0"), DevV(w[1], "443"), DevV(w[3], "10000")>>)),
            KV("callLinkState", LinkV(KeyOf(op)))>>
      [] op.kind = "join" ->
          <<KV("demuxId", N("287454020")), KV("ips", A(<<S("10.0.0.1"), S("::1")>>)), KV("port", N("10000")), KV("portTcp", N("16")), KV("portTls", N("443")),
            KV("hostname", S("h.example")), KV("iceUfrag", S("uf")), KV("icePwd", S("pw")), KV("dhePublicKey", S(Key32)), KV("callCreator", Mid("m2")),
            KV("conferenceId", S("era")), KV("clientStatus", S("ACTIVE"))>>
      [] op.kind = "delete" -> <<KV("any", N("0"))>>
      [] op.kind = "create" -> Append(LinkV(K(1, op.key[1].crn, "9")).v, KV("epoch", N("65535")))
      [] OTHER -> LinkV(KeyOf(op)).v
Special == ("participants" :> {A(<<>>), A(<<O(<<>>)>>), A(<<DevV(S("x"), "4294967296")>>), A(<<DevV(Null, "0")>>), A(<<O(<<KV("demuxId", N("16"))>>)>>),
                               A(<<DevV(N("0"), "0")>>), A(<<DevV(Mid("m1"), "-1")>>), A(<<DevV(Mid("m1"), "16"), Null>>)})
        @@ ("clientStatus" :> {S(x) : x \in {"ACTIVE", "PENDING", "BLOCKED", "active", "GONE"}})
        @@ ("ips" :> {A(<<>>), A(<<S("fd00::2")>>), A(<<S("10.0.0")>>), A(<<S("10.0.0.1"), N("0")>>), A(<<S("")>>)})
        @@ ("dhePublicKey" :> {S("00"), S("zz")})
        @@ ("restrictions" :> {S(x) : x \in {"none", "adminApproval", "AdminApproval", "something"}})
        @@ ("name" :> {Sealed(k, n) : k \in {A0, A1, B1}, n \in {"", "Talk", "ÿÿ?"}})
        @@ ("callLinkState" :> {LinkV(A0), LinkV(A1), O(<<>>), O(SubSeq(LinkV(A1).v, 2, 4)), O(SubSeq(LinkV(A1).v, 1, 3)),
                                O(Append(LinkV(A1).v, KV("epoch", N("-1")))), O(Append(LinkV(A1).v, KV("epoch", Null)))})
        @@ ("creator" :> {Mid("m1"), Mid("m2"), Mid("m3"), Uid("A", "u1")})
        @@ ("callCreator" :> {Mid("m1"), Mid("m3")})
Odd == {Null, S(""), S("x"), B(TRUE), O(<<>>)} \cup {N(x) : x \in {"0", "65535", "65536", "4294967295", "4294967296", "9223372036854775807",
        "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "1.5"}}
Bodies(op) == LET g == Good(op) IN
    {O(g), O(Append(g, KV("more", A(<<Null>>)))), O(<<>>), Null, S("x"), N("0"), [t |-> "raw", v |-> ""], [t |-> "raw", v |-> "{"], [t |-> "raw", v |-> "{}x"], [t |-> "bytes"]}
    \cup {O(SubSeq(g, 1, i - 1) \o SubSeq(g, i + 1, Len(g))) : i \in DOMAIN g}
    \cup {O(SubSeq(g, i + 1, Len(g)) \o SubSeq(g, 1, i)) : i \in DOMAIN g}
    \cup UNION {{O([g EXCEPT ![i].v = x]) : x \in Odd \cup (IF g[i].k \in DOMAIN Special THEN Special[g[i].k] ELSE {})} : i \in DOMAIN g}
Codes == {0, 100, 199, 200, 201, 204, 299, 300, 304, 400, 401, 403, 404, 409, 413, 428, 500, 503, 599, 600, 601, 602, 702, 703, 704, 999, 65535}
Ans(c, b) == [fail |-> FALSE, code |-> c, body |-> b]
Fail == [fail |-> TRUE]
Empty == [t |-> "raw", v |-> ""]
NotFound(op) == {Ans(404, b) : b \in {O(<<KV("reason", S(r))>>) : r \in {"expired", "invalid", "", "Expired", "other"}}
    \cup {O(<<KV("reason", Null)>>), O(<<KV("reason", N("0"))>>), O(<<>>), O(<<KV("more", Null), KV("reason", S("invalid"))>>), [t |-> "raw", v |-> "gone"], [t |-> "bytes"], Null, Empty, O(Good(op))}}
Few(op) == {Fail, Ans(200, O(Good(op))), Ans(404, Empty)}
Answers(op) == {Fail} \cup NotFound(op) \cup {Ans(200, b) : b \in Bodies(op)} \cup {Ans(c, b) : c \in Codes, b \in {O(Good(op)), Empty}}

VARIABLES op, st, result
vars == <<op, st, result>>
Init == op \in UNION {Ops(k) : k \in Kinds} /\ st = "new" /\ result = <<>>
Ask == /\ st = "new"
       /\ IF Local(op) # <<>> THEN st' = "local" /\ result' = <<"local", Local(op)[1]>> ELSE st' = "asked" /\ result' = <<>>
       /\ UNCHANGED op
Full(o) == Wide \/ \E k \in Kinds : o = Default(k) \/ (o = [Default(k) EXCEPT !.key = <<A1n>>]) \/ (k = "peek" /\ o = [Default(k) EXCEPT !.key = <<A0>>, !.resolver = Link("A")])
Answer == /\ st = "asked" /\ \E a \in (IF Full(op) THEN Answers(op) ELSE Few(op)) : result' = <<a, Outcome(op, a)>>
          /\ st' = "done" /\ UNCHANGED op
Next == Ask \/ Answer
Spec == Init /\ [][Next]_vars
Emit == st = "done" => PrintT("SCRIPT " \o ToJson(<<op, result[1]>>))
EmitLocal == st = "local" => PrintT("SCRIPT " \o ToJson(<<op, Fail>>))
\* ------------------------------------------------------------------ what the classification promises
Sensible == st = "done" =>
    LET a == result[1] r == result[2] IN
    /\ "err" \in DOMAIN r => (r.err \in 200..299) = FALSE
    \* a result only from a success, except that an empty 404 says nobody is there
    /\ "err" \notin DOMAIN r => ~a.fail /\ (a.code \in 200..299 \/ (op.kind = "peek" /\ a.code = 404 /\ r.peek = NoCall))
    /\ "peek" \in DOMAIN r => LET p == r.peek IN
         /\ p.users \subseteq {p.devices[i].user : i \in DOMAIN p.devices} /\ "" \notin p.users
         /\ \A u \in p.users \cup ToSet(p.asking) : IF op.resolver.kind = "map" THEN \E i \in DOMAIN op.resolver.members : op.resolver.members[i].user = u ELSE op.resolver.crn \in {"A", "B"}
         /\ (p.link # <<>>) => op.key # <<>> /\ p.link[1].key = op.key[1]
    \* a created link has a usable key for the same room
    /\ op.kind = "create" /\ "link" \in DOMAIN r => Usable(r.link.key) /\ r.link.key.crn = op.key[1].crn
    /\ op.kind \in {"read", "update"} /\ "link" \in DOMAIN r => r.link.key = op.key[1]
NoRequestFor == st = "asked" => (op.key = <<>> \/ (Usable(op.key[1]) <=> op.kind # "create"))
=============================================================================
