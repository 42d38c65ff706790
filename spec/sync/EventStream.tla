----------------------------- MODULE EventStream -----------------------------
(* Contract of core/util.rs EventStream: one consumer, any number of          *)
(* producers.  A push is in progress between SendStart and SendDone.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
    pushing,  \* items whose push has begun but not returned
    before,   \* item -> items whose push had returned successfully when its own push began
    done,     \* items whose push has returned successfully
    got,      \* items received so far, in order
    phase,    \* "open", "closing", "closed"
    must,     \* when closing: items pushed before that began
    late,     \* items whose push began after the closing ended
    live      \* producers left
vars == <<pushing, before, done, got, phase, must, late, live>>
Init0 == /\ pushing = {} /\ before = <<>> /\ done = {} /\ got = <<>> /\ phase = "open" /\ must = {} /\ late = {} /\ live = {}
Got == {got[i] : i \in DOMAIN got}

Join(p) == live' = live \cup {p} /\ UNCHANGED <<pushing, before, done, got, phase, must, late>>
Quit(p) == live' = live \ {p} /\ UNCHANGED <<pushing, before, done, got, phase, must, late>>
SendStart(x) == /\ pushing' = pushing \cup {x} /\ before' = (x :> done) @@ before
                /\ late' = IF phase = "closed" THEN late \cup {x} ELSE late
                /\ UNCHANGED <<done, got, phase, must, live>>
\* a push is refused only when the stream is closed, and always when it began after that
MaySend(x, ok) == x \in pushing /\ IF ok THEN x \notin late ELSE phase # "open"
SendDone(x, ok) == /\ pushing' = pushing \ {x} /\ done' = IF ok THEN done \cup {x} ELSE done
                   /\ UNCHANGED <<before, got, phase, must, late, live>>
\* x is received: it was pushed, only once, and everything pushed before it has been received
MayRecv(x) == x \in DOMAIN before /\ x \notin Got /\ x \notin late /\ before[x] \subseteq Got
Recv(x) == got' = Append(got, x) /\ UNCHANGED <<pushing, before, done, phase, must, late, live>>
\* the end is reported: everything pushed before the closing (or at all, if nobody is left) has been received
MayEnd == \/ phase = "closed" /\ must \subseteq Got
          \/ phase = "open" /\ live = {} /\ done \subseteq Got
CloseStart == phase' = "closing" /\ must' = done /\ UNCHANGED <<pushing, before, done, got, late, live>>
CloseDone == phase' = "closed" /\ UNCHANGED <<pushing, before, done, got, must, late, live>>
=============================================================================
