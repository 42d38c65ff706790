------------------------------- MODULE Locks -------------------------------
(* Contract of core/call_mutex.rs and core/call_rwlock.rs: what the threads   *)
(* that use one lock may observe.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
    hold,   \* thread -> "r" or "w": who is inside
    asks,   \* thread -> "lock", "read", "write" or "reset": who wants in
    val,    \* the shared value (a pair that a writer changes in two steps)
    state   \* "fine"; "broken": a writer panicked inside; "reset": and the value has been reset since
vars == <<hold, asks, val, state>>
Zero == <<0, 0>>
Init0 == hold = <<>> /\ asks = <<>> /\ val = Zero /\ state = "fine"
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Kind(op) == IF op = "read" THEN "r" ELSE "w"
Fits(k) == \A t \in DOMAIN hold : k = "r" /\ hold[t] = "r"

Ask(t, op) == asks' = Put(asks, t, op) /\ UNCHANGED <<hold, val, state>>
\* t gets in and finds v there; was: the value its reset supplied, or <<>> if it was not asked for one
MayGet(t, v, was) ==
    /\ t \in DOMAIN asks /\ Fits(Kind(asks[t]))
    /\ IF asks[t] = "reset" THEN
           \/ was # <<>> /\ state # "fine" /\ v = was
           \/ was = <<>> /\ state # "broken" /\ v = val
       ELSE was = <<>> /\ state # "broken" /\ v = val
Get(t, v) == /\ hold' = Put(hold, t, Kind(asks[t])) /\ asks' = Del(asks, t) /\ val' = v
             /\ state' = IF asks[t] = "reset" /\ state = "broken" THEN "reset" ELSE state
\* t is told that the lock is broken; the error names the lock
MayRefuse(t) == t \in DOMAIN asks /\ asks[t] # "reset" /\ state # "fine"
Refuse(t) == asks' = Del(asks, t) /\ UNCHANGED <<hold, val, state>>
Write(t, v) == val' = v /\ UNCHANGED <<hold, asks, state>>
Leave(t) == hold' = Del(hold, t) /\ UNCHANGED <<asks, val, state>>
Crash(t) == /\ state' = IF hold[t] = "w" THEN "broken" ELSE state
            /\ hold' = Del(hold, t) /\ UNCHANGED <<asks, val>>

\* ---- properties of the contract
Exclusive == \A t, u \in DOMAIN hold : t # u => hold[t] = "r" /\ hold[u] = "r"
=============================================================================
