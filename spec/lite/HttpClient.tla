----------------------------- MODULE HttpClient -----------------------------
(* lite/http.rs DelegatingClient: handlers registered under request ids,      *)
(* answered by whatever reports the application makes, in any order.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
    ids,      \* request -> identifier the application was given ("?" while the call has not come through)
    answered, \* request -> [id, what] of the report its handler was called with, <<>> if not called
    used,     \* identifiers ever given out
    reports,  \* report -> [id, what, must: who waited for id]
    open      \* reports that have not come back yet
vars == <<ids, answered, used, reports, open>>
Init0 == ids = <<>> /\ answered = <<>> /\ used = {} /\ reports = <<>> /\ open = {}
Waiting(id) == {q \in DOMAIN ids : ids[q] = id /\ answered[q] = <<>>}

\* the application is handed request q under id, which nobody waiting has
Fresh(id) == Waiting(id) = {}
Sent(q, id) == /\ ids' = (q :> id) @@ ids /\ answered' = (q :> <<>>) @@ answered /\ used' = used \cup {id}
               /\ UNCHANGED <<reports, open>>
\* the application reports `what` for id; rep names this report
Report(rep, id, what) == /\ reports' = (rep :> [id |-> id, what |-> what, must |-> Waiting(id)]) @@ reports /\ open' = open \cup {rep}
                         /\ UNCHANGED <<ids, answered, used>>
\* the handler of q is called with what: it was waiting, and that was reported for its identifier
MayHandle(q, what) == /\ q \in DOMAIN ids /\ answered[q] = <<>>
                      /\ \E rep \in open : reports[rep].id = ids[q] /\ reports[rep].what = what
Handle(q, what) == /\ answered' = [answered EXCEPT ![q] = <<what>>]
                   /\ UNCHANGED <<ids, used, reports, open>>
\* report `rep` has come back: whoever waited for that identifier has been called,
\* unless another report for it is still on its way to the handler
MayBeDone(rep) == \/ \A q \in reports[rep].must : answered[q] # <<>>
                  \/ \E r \in open \ {rep} : reports[r].id = reports[rep].id
Done(rep) == open' = open \ {rep} /\ UNCHANGED <<ids, answered, used, reports>>

\* ---- properties
OnePerId == \A id \in used : Cardinality(Waiting(id)) <= 1
=============================================================================
