------------------------------ MODULE MCLocks ------------------------------
(* The algorithm: the standard library's lock with its poison flag, set when  *)
(* a writer unwinds, and never cleared; reset overwrites the value of a       *)
(* poisoned lock.  Checked against the contract, and against the property     *)
(* that nobody inside ever sees what a crashed writer left.                   *)
EXTENDS Locks, Json
CONSTANTS Threads, MaxOps, MaxVal, Kinds, Depth, Gen
VARIABLES poison, n, half, ok, hist
mvars == <<vars, poison, n, half, ok, hist>>
Do(i) == hist' = IF Gen THEN Append(hist, i) ELSE hist
MInit == Init0 /\ poison = FALSE /\ n = 0 /\ half = {} /\ ok = TRUE /\ hist = <<>>
\* when generating, nobody asks who would have to wait
Request(t) == /\ t \notin DOMAIN hold \cup DOMAIN asks /\ n < MaxOps
              /\ \E k \in Kinds : /\ Gen => asks = <<>> /\ Fits(Kind(k))
                                  /\ Ask(t, k) /\ n' = n + 1 /\ Do([op |-> k, t |-> t])
              /\ UNCHANGED <<poison, half, ok>>
Grant(t) == /\ t \in DOMAIN asks /\ Fits(Kind(asks[t]))
            /\ IF poison /\ asks[t] # "reset" THEN ok' = (ok /\ MayRefuse(t)) /\ Refuse(t) /\ UNCHANGED half
               ELSE LET was == IF poison THEN <<7, 7>> ELSE <<>>
                        v == IF poison THEN <<7, 7>> ELSE val
                    IN /\ ok' = (ok /\ MayGet(t, v, was) /\ v \notin half) /\ Get(t, v) /\ half' = {}
            /\ UNCHANGED <<poison, n, hist>>
Change(t) == /\ t \in DOMAIN hold /\ hold[t] = "w" /\ val[1] < MaxVal
             /\ \/ Write(t, <<val[1] + 1, val[2]>>) /\ Do([op |-> "half", t |-> t])
                \/ Write(t, <<val[1] + 1, val[1] + 1>>) /\ Do([op |-> "set", t |-> t])
             /\ val[1] = val[2] /\ UNCHANGED <<poison, n, half, ok>>
Out(t) == /\ t \in DOMAIN hold /\ val[1] = val[2] /\ Leave(t) /\ Do([op |-> "leave", t |-> t])
          /\ UNCHANGED <<poison, n, half, ok>>
Panic(t) == /\ t \in DOMAIN hold /\ Crash(t) /\ poison' = (poison \/ hold[t] = "w")
            /\ half' = IF val[1] # val[2] THEN {val} ELSE half
            /\ Do([op |-> "panic", t |-> t]) /\ UNCHANGED <<n, ok>>
MNext == Len(hist) < Depth /\ \E t \in Threads : \/ Grant(t)
            \/ ((~Gen \/ asks = <<>>) /\ (Request(t) \/ Change(t) \/ Out(t) \/ Panic(t)))
MSpec == MInit /\ [][MNext]_mvars
Holds == ok
Emit == ~Gen \/ Len(hist) < Depth \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
