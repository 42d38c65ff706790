---------------------------- MODULE MCHttpClient ----------------------------
(* The registry algorithm (a map and a counter that wraps) against HttpClient: a report takes  *)
(* the handler out of the map in one step and calls it in a later one, so reports interleave. *)
(* A counter value still in the map is never met again: the real one has 2^32 values.         *)
EXTENDS HttpClient, Json
CONSTANTS Wrap, MaxReq, MaxRep, Depth, Gen
VARIABLES map, next, nreq, nrep, got, ok, hist
mvars == <<vars, map, next, nreq, nrep, got, ok, hist>>
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Do(i) == hist' = IF Gen THEN Append(hist, i) ELSE hist
MInit == Init0 /\ map = <<>> /\ next = 0 /\ nreq = 0 /\ nrep = 0 /\ got = <<>> /\ ok = TRUE /\ hist = <<>>
Send == /\ nreq < MaxReq /\ next \notin DOMAIN map /\ \A r \in open : r \in DOMAIN got => ids[got[r]] # next
        /\ nreq' = nreq + 1 /\ map' = Put(map, next, nreq + 1) /\ next' = (next + 1) % Wrap
        /\ ok' = (ok /\ Fresh(next)) /\ Sent(nreq + 1, next) /\ UNCHANGED <<nrep, got>> /\ Do([op |-> "send"])
Reply(id, what) ==
    /\ nrep < MaxRep /\ nrep' = nrep + 1
    /\ Report(nrep + 1, id, what)
    /\ IF id \in DOMAIN map THEN map' = Del(map, id) /\ got' = Put(got, nrep + 1, map[id]) ELSE UNCHANGED <<map, got>>
    /\ UNCHANGED <<next, nreq, ok>> /\ Do([op |-> "report", id |-> id, what |-> what])
Call(r) == /\ r \in open /\ r \in DOMAIN got /\ got' = Del(got, r)
           /\ ok' = (ok /\ MayHandle(got[r], reports[r].what))
           /\ Handle(got[r], reports[r].what) /\ UNCHANGED <<map, next, nreq, nrep, hist>>
Back(r) == /\ r \in open /\ r \notin DOMAIN got /\ ok' = (ok /\ MayBeDone(r)) /\ Done(r)
           /\ UNCHANGED <<map, next, nreq, nrep, got, hist>>
MNext == (Len(hist) < Depth /\ (~Gen \/ open = {}) /\ (Send \/ \E id \in 0..Wrap, w \in {"ok", "fail"} : Reply(id, w)))
         \/ \E r \in open : Call(r) \/ Back(r)
MSpec == MInit /\ [][MNext]_mvars
Holds == ok
Agree == \A q \in DOMAIN ids : (answered[q] = <<>>) <=>
            (ids[q] \in DOMAIN map /\ map[ids[q]] = q) \/ \E r \in DOMAIN got : got[r] = q
\* generation: only behaviours in which every report comes back before anything else happens
Emit == ~Gen \/ Len(hist) < Depth \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
