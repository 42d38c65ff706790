------------------------------- MODULE Rings --------------------------------
(* Group rings as one device handles them: what the application is told,     *)
(* what the user's other devices are told, and which ring a group call       *)
(* client accepts when it joins.                                             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Groups, Users, RingIds, Self, MaxAge   \* Self is one of Users; MaxAge: seconds a ring or message lasts

VARIABLES self,      \* whether the device knows who its user is
          calling,   \* a 1:1 call is active
          rings,     \* group -> the unsettled ring: who, which, how old
          timers,    \* rings whose time runs, in order
          clients,   \* group -> its client: joining?, the ring it would accept
          obs        \* what the last step told the outside, in order
vars == <<self, calling, rings, timers, clients, obs>>

NoRing == 0
Busy == calling \/ \E g \in DOMAIN clients : clients[g].joining
Without(f, g) == [x \in DOMAIN f \ {g} |-> f[x]]
With(f, g, v) == [x \in DOMAIN f \cup {g} |-> IF x = g THEN v ELSE f[x]]
Update(g, r, by, u) == [k |-> "ring", g |-> g, id |-> r, by |-> by, u |-> u]
\* messages go to the user's own other devices, if the device knows who that is
Tell(g, r, t) == IF self THEN <<[k |-> "tell", g |-> g, id |-> r, t |-> t, to |-> Self, u |-> "HandleImmediately"]>> ELSE <<>>

Init == self = FALSE /\ calling = FALSE /\ rings = <<>> /\ timers = <<>> /\ clients = <<>> /\ obs = <<>>

\* a ring is settled by its id, and by its sender if only the sender may do it
Settle(g, r, who) == IF g \in DOMAIN rings /\ rings[g].id = r /\ (who = "anyone" \/ rings[g].by = who) THEN Without(rings, g) ELSE rings
Unexpired(f) == [g \in {x \in DOMAIN f : f[x].age < MaxAge} |-> f[g]]

SetSelf == self' = TRUE /\ obs' = <<>> /\ UNCHANGED <<calling, rings, timers, clients>>

Ring(g, r, by, age) ==
    IF age > MaxAge THEN /\ obs' = <<Update(g, r, by, "ExpiredRequest")>>
                         /\ UNCHANGED <<self, calling, rings, timers, clients>>
    ELSE IF Busy THEN /\ obs' = Tell(g, r, "Busy") \o <<Update(g, r, by, "BusyLocally")>>
                      /\ rings' = Settle(g, r, "anyone")
                      /\ UNCHANGED <<self, calling, timers, clients>>
    ELSE /\ rings' = With(Unexpired(rings), g, [by |-> by, id |-> r, age |-> 0])
         /\ timers' = Append(timers, [g |-> g, by |-> by, id |-> r])
         /\ clients' = IF g \in DOMAIN clients /\ clients[g].ring = NoRing THEN [clients EXCEPT ![g].ring = r] ELSE clients
         /\ obs' = <<Update(g, r, by, "Requested")>>
         /\ UNCHANGED <<self, calling>>
Withdrawn(g, r, by) == /\ rings' = Settle(g, r, by) /\ obs' = <<Update(g, r, by, "CancelledByRinger")>>
                       /\ UNCHANGED <<self, calling, timers, clients>>
Responses == {"Ringing", "Accepted", "Declined", "Busy"}
Response(g, r, by, t) ==
    IF ~self \/ by # Self \/ t = "Ringing" THEN obs' = <<>> /\ UNCHANGED <<self, calling, rings, timers, clients>>
    ELSE /\ rings' = Settle(g, r, "anyone")
         /\ obs' = <<Update(g, r, by, t \o "OnAnotherDevice")>>
         /\ UNCHANGED <<self, calling, timers, clients>>
\* nothing that can be understood
Noise == obs' = <<>> /\ UNCHANGED <<self, calling, rings, timers, clients>>

Cancel(g, r, reason) ==
    /\ rings' = Settle(g, r, "anyone")
    /\ obs' = CASE reason = "none" -> <<>> [] reason = "DeclinedByUser" -> Tell(g, r, "Declined") [] reason = "Busy" -> Tell(g, r, "Busy")
    /\ UNCHANGED <<self, calling, timers, clients>>
\* time passes for the rings; their time running out is reported
Age(n) == /\ rings' = [g \in DOMAIN rings |-> [rings[g] EXCEPT !.age = @ + n]] /\ obs' = <<>>
          /\ UNCHANGED <<self, calling, timers, clients>>
RECURSIVE SettleAll(_, _)
SettleAll(f, ts) == IF ts = <<>> THEN f
    ELSE LET t == Head(ts) IN
         SettleAll(IF t.g \in DOMAIN f /\ f[t.g].id = t.id /\ f[t.g].by = t.by THEN Without(f, t.g) ELSE f, Tail(ts))
TimeOut == /\ rings' = SettleAll(rings, timers)
           /\ obs' = [i \in DOMAIN timers |-> Update(timers[i].g, timers[i].id, timers[i].by, "ExpiredRequest")]
           /\ timers' = <<>> /\ UNCHANGED <<self, calling, clients>>

CanCall == ~Busy
StartCall == CanCall /\ calling' = TRUE /\ obs' = <<>> /\ UNCHANGED <<self, rings, timers, clients>>
EndCall == calling /\ calling' = FALSE /\ obs' = <<>> /\ UNCHANGED <<self, rings, timers, clients>>

CanOpen(g) == g \notin DOMAIN clients
Open(g) ==
    /\ CanOpen(g)
    /\ rings' = Unexpired(rings)
    /\ clients' = With(clients, g, [joining |-> FALSE, ring |-> IF g \in DOMAIN rings' THEN rings'[g].id ELSE NoRing])
    /\ obs' = <<>> /\ UNCHANGED <<self, calling, timers>>
CanJoin(g) == g \in DOMAIN clients /\ (clients[g].joining \/ ~Busy)
Join(g) ==
    /\ CanJoin(g)
    /\ IF clients[g].joining THEN obs' = <<>> /\ UNCHANGED clients
       ELSE /\ obs' = IF clients[g].ring = NoRing THEN <<>> ELSE Tell(g, clients[g].ring, "Accepted")
            /\ clients' = [clients EXCEPT ![g] = [joining |-> TRUE, ring |-> NoRing]]
    /\ UNCHANGED <<self, calling, rings, timers>>
Leave(g) ==
    /\ g \in DOMAIN clients
    /\ clients' = IF clients[g].joining THEN [clients EXCEPT ![g] = [joining |-> FALSE, ring |-> NoRing]] ELSE clients
    /\ obs' = <<>> /\ UNCHANGED <<self, calling, rings, timers>>
Close(g) ==
    /\ g \in DOMAIN clients
    /\ clients' = Without(clients, g)
    /\ obs' = <<>> /\ UNCHANGED <<self, calling, rings, timers>>

\* what a client application can ask about a message before anything is set up for it
Opaque(kind, age, wanted) == CASE kind # "Ring" -> "NotARing" [] age > MaxAge -> "Expired" [] ~wanted -> "RejectedByCallback" [] OTHER -> "ok"
=============================================================================
