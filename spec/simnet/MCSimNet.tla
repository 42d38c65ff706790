------------------------------ MODULE MCSimNet ------------------------------
(* The mechanism (loss stage, delay, bounded queue, transmission, twice),     *)
(* step by step in every order, against Must and Never.                       *)
EXTENDS SimNet, Json
CONSTANTS Hosts, MaxPackets, Cfgs, Sizes
Catalogue == <<
    [dmin |-> 1, dmax |-> 2, loss |-> 0, rep |-> 2, kbps |-> 10000, queue |-> 10000],
    [dmin |-> 40, dmax |-> 41, loss |-> 0, rep |-> 0, kbps |-> 100, queue |-> 10000],
    [dmin |-> 1, dmax |-> 2, loss |-> 2, rep |-> 0, kbps |-> 10000, queue |-> 10000],
    [dmin |-> 1, dmax |-> 2, loss |-> 2, rep |-> 2, kbps |-> 10000, queue |-> 10000],
    [dmin |-> 2, dmax |-> 30, loss |-> 0, rep |-> 1, kbps |-> 1000, queue |-> 250],
    [dmin |-> 1, dmax |-> 60, loss |-> 1, rep |-> 1, kbps |-> 2000, queue |-> 10000],
    [dmin |-> 1, dmax |-> 2, loss |-> 1, rep |-> 0, kbps |-> 10000, queue |-> 600],
    [dmin |-> 5, dmax |-> 6, loss |-> 0, rep |-> 0, kbps |-> 50, queue |-> 128] >>
VARIABLES hs, ps, at, prev, queue, tx, emitted
mvars == <<hs, ps, at, prev, queue, tx, emitted>>
Links == (1..Hosts) \X {"send", "recv"}
Init == /\ \E f \in [1..Hosts -> Cfgs \X Cfgs] : hs = [h \in 1..Hosts |-> [v6 |-> h % 2 = 0, send |-> Catalogue[f[h][1]], recv |-> Catalogue[f[h][2]]]]
        /\ ps = <<>> /\ at = <<>> /\ prev = [k \in Links |-> FALSE] /\ queue = [k \in Links |-> <<>>] /\ tx = [k \in Links |-> 0] /\ emitted = FALSE
Send == /\ Len(ps) < MaxPackets
        /\ \E s \in 0..Hosts, d \in 0..Hosts, z \in Sizes :
             /\ ps' = Append(ps, [src |-> s, dst |-> d, size |-> z])
             /\ at' = Append(at, IF s = 0 THEN "gone" ELSE "loss1")
        /\ UNCHANGED <<hs, prev, queue, tx, emitted>>
L(p) == IF at[p] \in {"loss1", "delay1", "queue1", "tx1"} THEN <<ps[p].src, "send">> ELSE <<ps[p].dst, "recv">>
Cfg(k) == IF k[2] = "send" THEN hs[k[1]].send ELSE hs[k[1]].recv
\* the loss stage handles packets in the order they reach it: for sending links, in sending order
Loss(p) == /\ at[p] \in {"loss1", "loss2"} /\ (at[p] = "loss1" => \A q \in 1..(p - 1) : at[q] = "loss1" => ps[q].src # ps[p].src)
           /\ LET k == L(p) pr == IF prev[k] THEN Cfg(k).rep ELSE Cfg(k).loss IN
              \E drop \in BOOLEAN : /\ (pr = 0 => ~drop) /\ (pr = 2 => drop) /\ prev' = [prev EXCEPT ![k] = drop]
                                    /\ at' = [at EXCEPT ![p] = IF drop THEN "gone" ELSE IF k[2] = "send" THEN "delay1" ELSE "delay2"]
           /\ UNCHANGED <<hs, ps, queue, tx, emitted>>
Enqueue(p) == /\ at[p] \in {"delay1", "delay2"}
              /\ LET k == L(p) fits == Sum(ps, hs, ToSet(queue[k])) + Size(hs, ps, p) <= Cfg(k).queue IN
                 /\ queue' = IF fits THEN [queue EXCEPT ![k] = Append(@, p)] ELSE queue
                 /\ at' = [at EXCEPT ![p] = IF ~fits THEN "gone" ELSE IF k[2] = "send" THEN "queue1" ELSE "queue2"]
              /\ UNCHANGED <<hs, ps, prev, tx, emitted>>
Start(k) == /\ tx[k] = 0 /\ queue[k] # <<>> /\ tx' = [tx EXCEPT ![k] = Head(queue[k])] /\ queue' = [queue EXCEPT ![k] = Tail(@)]
            /\ UNCHANGED <<hs, ps, at, prev, emitted>>
Done(k) == /\ tx[k] # 0 /\ tx' = [tx EXCEPT ![k] = 0]
           /\ LET p == tx[k] IN at' = [at EXCEPT ![p] = IF k[2] = "recv" THEN "got" ELSE IF ps[p].dst = 0 THEN "gone" ELSE "loss2"]
           /\ UNCHANGED <<hs, ps, prev, queue, emitted>>
Next == Send \/ (\E p \in DOMAIN ps : Loss(p) \/ Enqueue(p)) \/ (\E k \in Links : Start(k) \/ Done(k))
Spec == Init /\ [][Next]_mvars
Quiet == ~ENABLED ((\E p \in DOMAIN ps : Loss(p) \/ Enqueue(p)) \/ (\E k \in Links : Start(k) \/ Done(k)))
Contract == \A p \in DOMAIN ps : /\ at[p] = "got" => ~Never(hs, ps, p)
                                 /\ (\A q \in DOMAIN at : at[q] \in {"got", "gone"}) => (Must(hs, ps, p) => at[p] = "got")
\* scripts
GenNext == /\ ~emitted /\ IF Len(ps) < MaxPackets THEN Send ELSE emitted' = TRUE /\ UNCHANGED <<hs, ps, at, prev, queue, tx>>
GenSpec == Init /\ [][GenNext]_mvars
Emit == emitted => PrintT("SCRIPT " \o ToJson(<<[hosts |-> hs, packets |-> ps, must |-> Cardinality({p \in DOMAIN ps : Must(hs, ps, p)})]>>))
=============================================================================
