----------------------------- MODULE MCResolver -----------------------------
(* The two caches of a link's resolver (texts over bytes): whatever was asked *)
(* before, and whoever has been forgotten, an answer is that of Resolve.      *)
EXTENDS Sfu
CONSTANTS Cap, People, Other
Ids == {[t |-> "uid", crn |-> "A", user |-> u] : u \in People} \cup {[t |-> "uid", crn |-> "B", user |-> u] : u \in Other} \cup {[t |-> "s", v |-> "x"]}
Link == [kind |-> "link", crn |-> "A"]
VARIABLES texts, bytes, last
vars == <<texts, bytes, last>>
Init == texts = <<>> /\ bytes = <<>> /\ last = <<>>
Hit(c, id) == \E i \in DOMAIN c : c[i][1] = id
Found(c, id) == c[CHOOSE i \in DOMAIN c : c[i][1] = id][2]
Keep(c, id, u) == Append(IF Len(c) > Cap THEN Tail(c) ELSE c, <<id, u>>)
ViaBytes(id) == IF Hit(bytes, id) THEN Found(bytes, id) ELSE Resolve(Link, id)
Remember(id) == IF Hit(bytes, id) \/ Resolve(Link, id) = "" THEN bytes ELSE Keep(bytes, id, Resolve(Link, id))
AskBytes(id) == last' = <<id, ViaBytes(id)>> /\ bytes' = Remember(id) /\ UNCHANGED texts
AskText(id) == IF Hit(texts, id) THEN last' = <<id, Found(texts, id)>> /\ UNCHANGED <<texts, bytes>>
               ELSE /\ last' = <<id, ViaBytes(id)>> /\ bytes' = Remember(id)
                    /\ texts' = IF ViaBytes(id) = "" THEN texts ELSE Keep(texts, id, ViaBytes(id))
Next == \E id \in Ids : AskBytes(id) \/ AskText(id)
Spec == Init /\ [][Next]_vars
Pure == last # <<>> => last[2] = Resolve(Link, last[1])
Bounded == Len(texts) <= Cap + 1 /\ Len(bytes) <= Cap + 1
Distinct == \A c \in {texts, bytes} : \A i, j \in DOMAIN c : c[i][1] = c[j][1] => i = j
=============================================================================
