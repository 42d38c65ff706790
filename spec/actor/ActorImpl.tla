----------------------------- MODULE ActorImpl -----------------------------
(* The algorithm of common/actor.rs: a thread that receives from a FIFO       *)
(* channel, keeps delayed tasks in a heap by deadline, looks at a stop flag    *)
(* after every receive.  Checked: every step it takes is allowed by Actor.     *)
EXTENDS Actor, Sequences
CONSTANTS Senders, Delays, MaxTasks, MaxNow, Joins
VARIABLES
    chan,    \* Seq of [id, due] (due = -1: immediate; id = 0: the kick)
    heap,    \* set of [id, due]
    pc,      \* "recv" | "got" | "run" | "over"
    got,     \* what was received
    flag,    \* stop flag
    snd,     \* sender -> [st: "idle"|"called", id, due]
    joiner,  \* "idle" | "called" | "flagged" | "kicked" | "joining" | "done"
    ok       \* contract guards held so far
ivars == <<vars, chan, heap, pc, got, flag, snd, joiner, ok>>
A == 1
NextId == Cardinality(DOMAIN task) + 1

IInit == /\ now = 0 /\ task = <<>> /\ run = (A :> 0) /\ stp = (A :> "no") /\ slack = (A :> 0) /\ gone = (A :> FALSE)
         /\ ncalls = 0 /\ chan = <<>> /\ heap = {} /\ pc = "recv" /\ got = [id |-> 0, due |-> -1] /\ flag = FALSE
         /\ snd = [s \in Senders |-> [st |-> "idle", id |-> 0, due |-> -1]] /\ joiner = "idle" /\ ok = TRUE

Call(s) == /\ snd[s].st = "idle" /\ NextId <= MaxTasks
           /\ \E d \in Delays :
                /\ SendCall(NextId, A, d, now)
                \* the deadline is computed some time between call and enqueueing: here, at the call or later
                /\ snd' = [snd EXCEPT ![s] = [st |-> "called", id |-> NextId, due |-> IF d < 0 THEN -1 ELSE -2]]
           /\ UNCHANGED <<now, chan, heap, pc, got, flag, joiner, ok>>
Stamp(s) == /\ snd[s].st = "called" /\ snd[s].due = -2
            /\ snd' = [snd EXCEPT ![s].due = IF task[snd[s].id].d < 0 THEN -1 ELSE now + task[snd[s].id].d]
            /\ UNCHANGED <<vars, chan, heap, pc, got, flag, joiner, ok>>
Enqueue(s) == /\ snd[s].st = "called" /\ snd[s].due # -2
              /\ chan' = IF pc = "over" THEN chan ELSE Append(chan, [id |-> snd[s].id, due |-> snd[s].due])
              /\ snd' = [snd EXCEPT ![s].st = "queued"]
              /\ UNCHANGED <<vars, heap, pc, got, flag, joiner, ok>>
Return(s) == /\ snd[s].st = "queued" /\ SendRet(snd[s].id, now)
             /\ snd' = [snd EXCEPT ![s].st = "idle"]
             /\ UNCHANGED <<now, chan, heap, pc, got, flag, joiner, ok>>
Recv == /\ pc = "recv" /\ chan # <<>>
        /\ got' = Head(chan) /\ chan' = Tail(chan) /\ pc' = "got" /\ UNCHANGED <<vars, heap, flag, snd, joiner, ok>>
Timeout == /\ pc = "recv" /\ chan = <<>> /\ heap # {}
           /\ \E h \in heap : /\ \A g \in heap : h.due <= g.due
                              /\ now >= h.due
                              /\ got' = [id |-> h.id, due |-> -1] /\ heap' = heap \ {h}
           /\ pc' = "got" /\ UNCHANGED <<vars, chan, flag, snd, joiner, ok>>
Look == /\ pc = "got"
        /\ IF flag THEN pc' = "over" /\ Gone(A) /\ UNCHANGED <<heap, ok>>
           ELSE IF got.due >= 0 THEN heap' = heap \cup {got} /\ pc' = "recv" /\ UNCHANGED <<vars, ok>>
           ELSE IF got.id = 0 THEN pc' = "recv" /\ UNCHANGED <<vars, heap, ok>>
           ELSE pc' = "picked" /\ UNCHANGED <<vars, heap, ok>>
        /\ UNCHANGED <<now, chan, got, flag, snd, joiner>>
Begin == /\ pc = "picked" /\ ok' = (ok /\ MayStart(got.id, now)) /\ StartTask(got.id) /\ pc' = "run"
         /\ UNCHANGED <<now, chan, heap, got, flag, snd, joiner>>
Finish == /\ pc = "run" /\ EndTask(got.id) /\ pc' = "recv"
          /\ UNCHANGED <<now, chan, heap, got, flag, snd, joiner, ok>>
Stop1 == /\ joiner = "idle" /\ StopCall({A}) /\ joiner' = "called"
         /\ UNCHANGED <<now, chan, heap, pc, got, flag, snd, ok>>
Stop2 == /\ joiner = "called" /\ flag' = TRUE /\ joiner' = "flagged" /\ UNCHANGED <<vars, chan, heap, pc, got, snd, ok>>
Stop3 == /\ joiner = "flagged" /\ chan' = (IF pc = "over" THEN chan ELSE Append(chan, [id |-> 0, due |-> -1])) /\ joiner' = "kicked"
         /\ UNCHANGED <<vars, heap, pc, got, flag, snd, ok>>
Stop4 == /\ joiner = "kicked" /\ (Joins => pc = "over")
         /\ ok' = (ok /\ (Joins => MayReturnJoined({A}, TRUE)))
         /\ StopRet({A}) /\ joiner' = "done" /\ UNCHANGED <<now, chan, heap, pc, got, flag, snd>>
Tick == now < MaxNow /\ now' = now + 1
        /\ UNCHANGED <<task, run, stp, slack, gone, ncalls, chan, heap, pc, got, flag, snd, joiner, ok>>
Thread == Recv \/ Timeout \/ Look \/ Begin \/ Finish
INext == Thread \/ Stop1 \/ Stop2 \/ Stop3 \/ Stop4 \/ Tick \/ \E s \in Senders : Call(s) \/ Stamp(s) \/ Enqueue(s) \/ Return(s)
ISpec == IInit /\ [][INext]_ivars
\* fairness: the thread, the senders in flight and time go on
IFair == ISpec /\ WF_ivars(Thread) /\ WF_ivars(Tick) /\ WF_ivars(Stop2 \/ Stop3 \/ Stop4)
         /\ \A s \in Senders : WF_ivars(Stamp(s) \/ Enqueue(s) \/ Return(s))
ContractHolds == ok
\* exactly once if never stopped; a stop always ends the thread
AllRun == \A i \in 1..MaxTasks : [](i \in DOMAIN task => <>((i \in DOMAIN task /\ task[i].st = "done") \/ stp[A] # "no"))
StopEnds == [](stp[A] # "no" => <>(gone[A] /\ stp[A] = "stopped"))
=============================================================================
