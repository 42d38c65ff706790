------------------------------- MODULE MCRings -------------------------------
EXTENDS Rings, TLC, Json
CONSTANTS Record, Depth, Ages
VARIABLES script, last
mvars == <<vars, script, last>>
Others == Users \ {Self}
MInit == Init /\ script = <<>> /\ last = [op |-> "none"]
Kinds == {"Garbage", "Empty", "NoGroup", "NoId", "NoType", "BadType", "RespNoGroup", "RespNoId", "RespBadType"}
Ops ==
    {[op |-> "SetSelf"], [op |-> "StartCall"], [op |-> "EndCall"]}
    \cup [op : {"Age"}, n : {45}]
    \cup [op : {"Ring"}, g : Groups, id : RingIds, by : Users, age : Ages]
    \cup [op : {"Withdrawn"}, g : Groups, id : RingIds, by : Users]
    \cup [op : {"Response"}, g : Groups, id : RingIds, by : Users, t : Responses]
    \cup [op : {"Cancel"}, g : Groups, id : RingIds, reason : {"none", "DeclinedByUser", "Busy"}]
    \cup [op : {"Open", "Join", "Leave", "Close"}, g : Groups]
Extra == [op : {"Noise"}, kind : Kinds] \cup [op : {"TimeOut"}, n : {0}]
Do(o) ==
    CASE o.op = "SetSelf" -> SetSelf [] o.op = "StartCall" -> StartCall [] o.op = "EndCall" -> EndCall
      [] o.op = "Age" -> Age(o.n) [] o.op = "Ring" -> Ring(o.g, o.id, o.by, o.age)
      [] o.op = "Withdrawn" -> Withdrawn(o.g, o.id, o.by) [] o.op = "Response" -> Response(o.g, o.id, o.by, o.t)
      [] o.op = "Cancel" -> Cancel(o.g, o.id, o.reason) [] o.op = "Open" -> Open(o.g) [] o.op = "Join" -> Join(o.g)
      [] o.op = "Leave" -> Leave(o.g) [] o.op = "Close" -> Close(o.g) [] o.op = "Noise" -> Noise [] o.op = "TimeOut" -> TimeOut
MNext == /\ Len(timers) < 3
         /\ \E o \in Ops \cup {[op |-> "TimeOut", n |-> 0]} : Do(o) /\ last' = o /\ UNCHANGED script
Small == \A g \in DOMAIN rings : rings[g].age < 100
MSpec == MInit /\ [][MNext]_mvars
MView == <<self, calling, rings, timers, clients>>
-----------------------------------------------------------------------------
Told(u) == {i \in DOMAIN obs' : obs'[i].k = "ring" /\ obs'[i].u = u}
Sent(t) == {i \in DOMAIN obs' : obs'[i].k = "tell" /\ obs'[i].t = t}
\* it rings only when there is no other call, for a message that is fresh
RingsWhenFree == [][Told("Requested") # {} => ~Busy /\ last'.op = "Ring" /\ last'.age <= MaxAge]_mvars
\* one whose ring meets another call learns nothing, the user's other devices learn that this one is busy
BusyTold == [][last'.op = "Ring" /\ last'.age <= MaxAge /\ Busy => Told("BusyLocally") # {} /\ (self <=> Sent("Busy") # {})]_mvars
\* an unsettled ring goes away only by who may settle it, by time, or for a newer ring of the group
OnlyWhoMay == [][\A g \in DOMAIN rings :
    (g \notin DOMAIN rings' \/ rings'[g].id # rings[g].id \/ rings'[g].by # rings[g].by) =>
        \/ rings[g].age >= MaxAge
        \/ last'.op = "TimeOut"
        \/ last'.op = "Ring" /\ last'.g = g
        \/ last'.op = "Cancel" /\ last'.g = g /\ last'.id = rings[g].id
        \/ last'.op = "Withdrawn" /\ last'.g = g /\ last'.id = rings[g].id /\ last'.by = rings[g].by
        \/ last'.op = "Response" /\ last'.g = g /\ last'.id = rings[g].id /\ last'.by = Self /\ self]_mvars
\* a ring is accepted by joining its group, once
AcceptedOnce == [][Sent("Accepted") # {} => last'.op = "Join" /\ clients[last'.g].ring # NoRing /\ clients'[last'.g].ring = NoRing]_mvars
\* what a client would accept was rung in its group and was not settled or out of time when the client came to know it
ClientRing == [][\A g \in DOMAIN clients' : clients'[g].ring # NoRing /\ (g \notin DOMAIN clients \/ clients[g].ring = NoRing) =>
    g \in DOMAIN rings' /\ rings'[g].id = clients'[g].ring /\ rings'[g].age < MaxAge]_mvars
OneJoined == Cardinality({g \in DOMAIN clients : clients[g].joining}) + (IF calling THEN 1 ELSE 0) <= 1
-----------------------------------------------------------------------------
\* random scripts
Pick(S) == RandomElement(S)
GNext == /\ Len(script) < Depth
         /\ \E x \in {Pick(1..24)}, y \in {Pick(1..4)} :
            \E o \in {IF Len(script) = 0 /\ y # 1 THEN [op |-> "SetSelf"] ELSE
                     CASE x <= 7 -> [op |-> "Ring", g |-> Pick(Groups), id |-> Pick(RingIds), by |-> Pick(Users), age |-> Pick(Ages)]
                       [] x <= 9 -> [op |-> "Withdrawn", g |-> Pick(Groups), id |-> Pick(RingIds), by |-> Pick(Users)]
                       [] x <= 11 -> [op |-> "Response", g |-> Pick(Groups), id |-> Pick(RingIds), by |-> Pick({Self, Pick(Users)}), t |-> Pick(Responses)]
                       [] x <= 13 -> [op |-> "Cancel", g |-> Pick(Groups), id |-> Pick(RingIds), reason |-> Pick({"none", "DeclinedByUser", "Busy"})]
                       [] x <= 14 -> [op |-> "Age", n |-> Pick({30, 45, 59, 60, 600})]
                       [] x <= 15 -> [op |-> "Noise", kind |-> Pick(Kinds)]
                       [] x <= 16 -> [op |-> Pick({"StartCall", "EndCall"})]
                       [] x <= 17 -> [op |-> "SetSelf"]
                       [] x <= 18 /\ Len(timers) > 0 /\ Cardinality({i \in DOMAIN script : script[i].op = "TimeOut"}) < 2 -> [op |-> "TimeOut", n |-> 0]
                       [] x <= 20 -> [op |-> "Open", g |-> Pick(Groups)]
                       [] OTHER -> [op |-> Pick({"Join", "Join", "Leave", "Close"}), g |-> Pick(Groups)]} :
            IF ENABLED Do(o) THEN Do(o) /\ last' = o /\ script' = Append(script, o) ELSE UNCHANGED mvars
         /\ (Len(script') = Depth => PrintT("SCRIPT " \o ToJson(script')))
GSpec == MInit /\ [][GNext]_mvars
=============================================================================
