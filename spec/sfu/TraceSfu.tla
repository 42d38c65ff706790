------------------------------ MODULE TraceSfu ------------------------------
EXTENDS Sfu, TraceKit
VARIABLES l
Proofs == ("a:b" :> <<"Basic YTphOmI=">>) @@ ("abc" :> <<"Basic YWJjOmFiYw==">>) @@ ("" :> <<"Basic Og==">>) @@ (":1" :> <<"Basic Ojox">>)
       @@ ("é:1" :> <<"Basic w6k6w6k6MQ==">>) @@ ("bytes" :> <<>>)
SetOf(list) == IF Cardinality(ToSet(list)) = Len(list) THEN ToSet(list) ELSE {"repeated"}
AskedWrong(op, asked) ==
    LET w == Request(op) IN
    IF Len(asked) # 1 THEN {"requests"}
    ELSE (IF asked[1].method # w.method \/ asked[1].url # Url(op) THEN {"url"} ELSE {})
         \cup (IF SetOf(asked[1].headers) # w.headers THEN {"headers"} ELSE {})
         \cup (IF SetOf(asked[1].body) # w.body THEN {"body"} ELSE {})
\* recorded sets come as lists
Seen(r) == IF "peek" \in DOMAIN r THEN [peek |-> [r.peek EXCEPT !.users = ToSet(@)]] ELSE r
Wrong(e, w) == IF Len(e.obs.results) # 1 THEN {"completions"}
               ELSE LET r == Seen(e.obs.results[1]) IN
                    IF DOMAIN r # DOMAIN w THEN {"outcome"}
                    ELSE IF "peek" \in DOMAIN w THEN {f \in DOMAIN w.peek : r.peek[f] # w.peek[f]}
                    ELSE IF "join" \in DOMAIN w THEN {f \in DOMAIN w.join : r.join[f] # w.join[f]}
                    ELSE IF "link" \in DOMAIN w THEN {f \in DOMAIN w.link : r.link[f] # w.link[f]}
                    ELSE IF r # w THEN {"outcome"} ELSE {}
OpWrong(e) == IF Local(e.op) # <<>> THEN (IF e.obs.asked # <<>> THEN {"requests"} ELSE {}) \cup Wrong(e, Local(e.op)[1])
              ELSE AskedWrong(e.op, e.obs.asked) \cup (IF e.obs.early # 0 THEN {"completions"} ELSE {}) \cup Wrong(e, Outcome(e.op, e.ans))
Want(e) == CASE e.ev = "Op" -> IF Local(e.op) # <<>> THEN <<Local(e.op)[1]>> ELSE <<Request(e.op), Url(e.op), Outcome(e.op, e.ans)>>
             [] e.ev = "Proto" -> <<ProtoInfo(e.op, e.p)>>
             [] e.ev = "Lookup" -> <<Resolve(e.resolver, e.id)>>
             [] e.ev = "Proof" -> Proofs[e.proof]
Wrongs(e) == CASE e.ev = "Op" -> OpWrong(e)
               [] e.ev = "Proto" -> Wrong(e, ProtoInfo(e.op, e.p))
               [] e.ev = "Lookup" -> IF e.obs.user # Resolve(e.resolver, e.id) THEN {"user"} ELSE {}
               [] e.ev = "Proof" -> IF e.obs.header # Proofs[e.proof] THEN {"header"} ELSE {}
\* which property an operation belongs to is given by the kinds listed
Kinds == Relevant("kinds")
About(e) == e.ev # "Op" \/ e.op.kind \in Kinds
Mine(e, d) == d \cap Relevant(e.ev)
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
        CASE e.ev = "Reset" -> TRUE
          [] e.ev = "Panic" -> ("op" \in DOMAIN e /\ "kind" \in DOMAIN e.op /\ e.op.kind \notin Kinds) \/ ReportPanic(l)
          [] OTHER -> ~About(e) \/ (LET d == Mine(e, Wrongs(e)) IN d = {} \/ ReportDiff(l, e.ev, d, Want(e)))
TraceSpec == l = 1 /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
