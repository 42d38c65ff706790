------------------------------- MODULE Actor -------------------------------
(* Contract of common/actor.rs: what users of actors rely on.                *)
(* A state machine over observable events (calls, returns, task starts and   *)
(* ends, stop requests), with explicit time.  ActorImpl.tla is the algorithm  *)
(* and is model checked to satisfy it; recorded traces are checked against it.*)
EXTENDS Integers, FiniteSets, TLC
Inf == 1073741823
VARIABLES
    now,      \* time of the last event
    task,     \* id -> [a: actor, d: delay (-1: immediate), call, ret: times, st: "sent"|"run"|"done", before: ids]
    run,      \* actor -> id of the running task, 0 if none
    stp,      \* actor -> "no" | "calling" | "stopped"
    slack,    \* actor -> how many more tasks may start (one that had been picked when the stop was requested)
    gone,     \* actor -> its state has been dropped (its thread is over)
    ncalls    \* stop calls made so far
vars == <<now, task, run, stp, slack, gone, ncalls>>

Init0 == now = 0 /\ task = <<>> /\ run = <<>> /\ stp = <<>> /\ slack = <<>> /\ gone = <<>> /\ ncalls = 0

Pending(a) == {j \in DOMAIN task : task[j].a = a /\ task[j].st = "sent"}
DueFrom(r) == r.call + r.d       \* earliest possible deadline
DueBy(r) == r.ret + r.d          \* latest possible deadline

\* ---- what must hold when an event happens
OneAtATime(id) == run[task[id].a] = 0
AtMostOnce(id) == task[id].st = "sent"
NotAfterStop(id) == LET a == task[id].a IN ~gone[a] /\ (stp[a] # "stopped" \/ slack[a] > 0)
InOrder(id) == task[id].d >= 0 \/
    \A j \in task[id].before : task[j].st # "sent"
NotEarly(id, t) == task[id].d < 0 \/ t >= DueFrom(task[id])
EarliestFirst(id) == task[id].d < 0 \/
    \A j \in Pending(task[id].a) : j = id \/ task[j].d < 0 \/
        ~(task[j].ret < DueFrom(task[id]) /\ DueBy(task[j]) < DueFrom(task[id]))
MayStart(id, t) == AtMostOnce(id) /\ OneAtATime(id) /\ NotAfterStop(id) /\ InOrder(id) /\ NotEarly(id, t) /\ EarliestFirst(id)
WhyNot(id, t) == {s \in {"once", "overlap", "afterstop", "order", "early", "earliest"} :
    CASE s = "once" -> ~AtMostOnce(id) [] s = "overlap" -> ~OneAtATime(id) [] s = "afterstop" -> ~NotAfterStop(id)
      [] s = "order" -> ~InOrder(id) [] s = "early" -> ~NotEarly(id, t) [] s = "earliest" -> ~EarliestFirst(id)}
\* a joining stop that alone took the actors may return only when they are over
MayReturnJoined(as, sole) == ~sole \/ \A a \in as : run[a] = 0 /\ gone[a]
\* nothing more is going to happen: everything sent to a live actor has been run
Quiet == \A j \in DOMAIN task : task[j].st = "sent" => stp[task[j].a] # "no" \/ gone[task[j].a]

\* ---- how events change the state
NewActor(a, fail) == /\ run' = (a :> 0) @@ run /\ stp' = (a :> "no") @@ stp
               /\ slack' = (a :> 0) @@ slack /\ gone' = (a :> fail) @@ gone   \* no state, no thread
               /\ UNCHANGED <<task, ncalls>>
SendCall(id, a, d, t) ==
    /\ task' = (id :> [a |-> a, d |-> d, call |-> t, ret |-> Inf, st |-> "sent",
                       before |-> IF d >= 0 THEN {} ELSE {j \in Pending(a) : task[j].d < 0 /\ task[j].ret # Inf}]) @@ task
    /\ UNCHANGED <<run, stp, slack, gone, ncalls>>
SendRet(id, t) == task' = [task EXCEPT ![id].ret = t] /\ UNCHANGED <<run, stp, slack, gone, ncalls>>
StartTask(id) == LET a == task[id].a IN
    /\ run' = [run EXCEPT ![a] = id] /\ task' = [task EXCEPT ![id].st = "run"]
    /\ slack' = IF stp[a] = "stopped" THEN [slack EXCEPT ![a] = 0] ELSE slack
    /\ UNCHANGED <<stp, gone, ncalls>>
EndTask(id) == /\ run' = [run EXCEPT ![task[id].a] = 0] /\ task' = [task EXCEPT ![id].st = "done"]
               /\ UNCHANGED <<stp, slack, gone, ncalls>>
StopCall(as) == /\ stp' = [a \in DOMAIN stp |-> IF a \in as /\ stp[a] = "no" THEN "calling" ELSE stp[a]]
                /\ ncalls' = ncalls + 1 /\ UNCHANGED <<task, run, slack, gone>>
StopRet(as) == /\ stp' = [a \in DOMAIN stp |-> IF a \in as THEN "stopped" ELSE stp[a]]
               /\ slack' = [a \in DOMAIN stp |-> IF a \in as /\ stp[a] # "stopped" THEN (IF run[a] = 0 THEN 1 ELSE 0) ELSE slack[a]]
               /\ UNCHANGED <<task, run, gone, ncalls>>
Gone(a) == gone' = [gone EXCEPT ![a] = TRUE] /\ UNCHANGED <<task, run, stp, slack, ncalls>>
=============================================================================
