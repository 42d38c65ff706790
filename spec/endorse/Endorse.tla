------------------------------ MODULE Endorse ------------------------------
(* core/endorsements.rs: group-send endorsements of a call link, kept per     *)
(* expiration.  An endorsement is known by its tag.  `clock' orders what      *)
(* happened (the code reads a monotonic clock).                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
VARIABLES sets,    \* expiration -> (user -> tag)
          updated, \* expiration -> when last inserted
          bad,     \* expirations marked invalid
          badAll,  \* when the last response was found invalid, or 0
          shared,  \* when the latest set was last handed out, or 0
          clock, obs
vars == <<sets, updated, bad, badAll, shared, clock, obs>>
cache == <<sets, updated, bad, badAll, shared>>

Valid(x) == x \in DOMAIN sets /\ x \notin bad /\ badAll < updated[x]
Latest == Max(DOMAIN sets)
LatestValid == DOMAIN sets # {} /\ Valid(Latest)
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
None == [res |-> "none"]

Init == /\ sets = <<>> /\ updated = <<>> /\ bad = {} /\ badAll = 0 /\ shared = 0 /\ clock = 0
        /\ obs = [res |-> "init"]
Insert(x, es) ==   \* es: user -> tag
    /\ clock' = clock + 1
    /\ sets' = (x :> (es @@ (IF x \in DOMAIN sets THEN sets[x] ELSE <<>>))) @@ sets
    /\ updated' = (x :> clock') @@ updated
    /\ bad' = bad \ {x} /\ badAll' = 0
    /\ UNCHANGED shared /\ obs' = [res |-> "done"]
Invalid(x) ==      \* -1: the last response as a whole
    /\ clock' = clock + 1
    /\ IF x = -1 THEN badAll' = clock' /\ bad' = bad ELSE bad' = bad \cup {x} /\ badAll' = badAll
    /\ UNCHANGED <<sets, updated, shared>> /\ obs' = [res |-> "done"]
Clear(now) ==
    /\ clock' = clock + 1
    /\ LET old == {x \in DOMAIN sets : now >= x} IN
       sets' = Without(sets, old) /\ updated' = Without(updated, old) /\ bad' = bad \ old
    /\ UNCHANGED <<badAll, shared>> /\ obs' = [res |-> "done"]

RECURSIVE Total(_, _)
Total(f, us) == IF us = <<>> THEN 0 ELSE f[Head(us)] + Total(f, Tail(us))
Elems(us) == {us[i] : i \in DOMAIN us}
\* one token for all of us, for exactly this expiration
Token(x, us) ==
    /\ UNCHANGED cache /\ clock' = clock + 1
    /\ obs' = IF Valid(x) /\ Elems(us) \subseteq DOMAIN sets[x]
              THEN [res |-> "token", exp |-> x, total |-> Total(sets[x], us), of |-> Len(us)] ELSE None
ForUsers(x, us) == \* x = -1: the latest
    /\ UNCHANGED cache /\ clock' = clock + 1
    /\ obs' = LET k == IF x # -1 THEN x ELSE IF DOMAIN sets = {} THEN -1 ELSE Latest IN
              IF k # -1 /\ Valid(k) /\ Elems(us) \subseteq DOMAIN sets[k]
              THEN [res |-> "set", exp |-> k, set |-> [u \in Elems(us) |-> sets[k][u]]] ELSE None
ForExpiration(x) ==
    /\ UNCHANGED cache /\ clock' = clock + 1
    /\ obs' = IF Valid(x) THEN [res |-> "set", exp |-> x, set |-> sets[x]] ELSE None
GetLatest ==
    /\ clock' = clock + 1 /\ UNCHANGED <<sets, updated, bad, badAll>>
    /\ IF LatestValid THEN shared' = clock' /\ obs' = [res |-> "set", exp |-> Latest, set |-> sets[Latest]]
       ELSE shared' = shared /\ obs' = None
HasUpdate ==
    /\ UNCHANGED cache /\ clock' = clock + 1
    /\ obs' = [res |-> "flag", flag |-> LatestValid /\ updated[Latest] > shared]
=============================================================================
