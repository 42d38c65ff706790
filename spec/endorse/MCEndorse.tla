----------------------------- MODULE MCEndorse -----------------------------
EXTENDS Endorse, Json
CONSTANTS Users, Exps, MaxSteps, Sim
VARIABLES hist,
          \* independent bookkeeping, straight from the property's text
          given,   \* every (expiration, user, tag) ever inserted
          refused, \* expirations whose latest verdict was "invalid"
          dropped  \* the largest clock value cleared up to since the expiration was last inserted
mvars == <<vars, hist, given, refused, dropped>>
MInit == Init /\ hist = <<>> /\ given = {} /\ refused = {} /\ dropped = [x \in Exps |-> 0]
Seqs == {<<>>} \cup {<<u>> : u \in Users} \cup {<<u, v>> : u, v \in Users}
Maps == UNION {[S -> {Len(hist) + 1}] : S \in SUBSET Users}
Log(i) == hist' = Append(hist, IF Sim THEN i ELSE 0)
Pairs(m) == {<<u, m[u]>> : u \in DOMAIN m}
Quiet == UNCHANGED <<given, refused, dropped>>
Next ==
    /\ Len(hist) < MaxSteps
    /\ \/ \E x \in Exps, m \in Maps :
            Insert(x, m) /\ Log([op |-> "insert", exp |-> x, users |-> Pairs(m)])
            /\ given' = given \cup {<<x, u, m[u]>> : u \in DOMAIN m}
            /\ refused' = refused \ {x, -1} /\ dropped' = [dropped EXCEPT ![x] = 0]
       \/ \E x \in Exps \cup {-1} : Invalid(x) /\ Log([op |-> "invalid", exp |-> x])
            /\ refused' = refused \cup {x} /\ UNCHANGED <<given, dropped>>
       \/ \E n \in {x - 1 : x \in Exps} \cup Exps : Clear(n) /\ Log([op |-> "clear", now |-> n])
            /\ dropped' = [x \in Exps |-> IF n > dropped[x] THEN n ELSE dropped[x]] /\ UNCHANGED given
            /\ refused' = refused \ {x \in DOMAIN sets : x <= n}
       \/ \E x \in Exps, us \in Seqs : Token(x, us) /\ Log([op |-> "token", exp |-> x, users |-> us]) /\ Quiet
       \/ \E x \in Exps \cup {-1}, us \in Seqs : ForUsers(x, us) /\ Log([op |-> "users", exp |-> x, users |-> us]) /\ Quiet
       \/ \E x \in Exps : ForExpiration(x) /\ Log([op |-> "forexp", exp |-> x]) /\ Quiet
       \/ GetLatest /\ Log([op |-> "latest"]) /\ Quiet
       \/ HasUpdate /\ Log([op |-> "hasupdate"]) /\ Quiet
MSpec == MInit /\ [][Next]_mvars
Handed == obs.res \in {"token", "set"}
\* whatever is handed out comes from an insertion for that very expiration,
OnlyGiven == obs.res = "set" => \A u \in DOMAIN obs.set : <<obs.exp, u, obs.set[u]>> \in given
\* is not marked invalid since, and not dropped as expired since
OnlyValid == Handed => obs.exp \notin refused /\ -1 \notin refused
NeverExpired == Handed => dropped[obs.exp] < obs.exp
\* a clear leaves nothing expired, and takes nothing else
Dropped == \A x \in DOMAIN sets : dropped[x] < x
OrderKept == badAll <= clock /\ shared <= clock /\ \A x \in DOMAIN updated : updated[x] <= clock
DomainsAgree == DOMAIN sets = DOMAIN updated
\* asking changes nothing but when the latest was shared
AskingIsPure == [][obs'.res # "done" => UNCHANGED <<sets, updated, bad, badAll>>]_vars
UpdateSeenOnce == [][(obs'.res = "flag" /\ shared > 0) => (obs'.flag <=> LatestValid /\ updated[Latest] > shared)]_vars
View == <<sets, bad, badAll > 0, {x \in DOMAIN updated : badAll < updated[x]}, {x \in DOMAIN updated : updated[x] > shared},
          obs, Len(hist), given, refused, dropped>>
Emit == ~Sim \/ Len(hist) < MaxSteps \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
