-------------------------------- MODULE Mrp --------------------------------
(* The modest reliable protocol of /repo/mrp: two endpoints (0 and 1), each with a send and  *)
(* a receive window, over a network that may lose, duplicate, delay and reorder packets.     *)
(* One action per public call.  Everything the caller of that call sees is in obs'.          *)
(* A packet is <<seq, ack, np, d>>; an absent header part is -1; d is the payload.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES
    cap,      \* window size, the same for both windows of both endpoints
    mrg,      \* TRUE: fragments are reassembled (receive_and_merge), FALSE: plain receive
    now,      \* time
    ep,       \* endpoint states
    net,      \* net[i]: packets transmitted by i that can still arrive at 1-i
    obs,      \* what the caller of the last call observed
    sentMsgs, \* history: messages accepted for sending by i
    dlvd,     \* history: messages handed out at i
    lastAck,  \* history: highest acknowledgement transmitted by i
    forged    \* history: a packet that the peer never sent has been received

vars == <<cap, mrg, now, ep, net, obs, sentMsgs, dlvd, lastAck, forged>>
View == <<cap, mrg, now, ep, net, sentMsgs, dlvd, lastAck, forged>>

E == 0..1
NoMB == [on |-> FALSE, need |-> 0, got |-> <<>>]
Fresh == [left |-> 1, sbuf |-> <<>>, rleft |-> 1, rbuf |-> <<>>, ack |-> FALSE,
          mb |-> NoMB, mend |-> 0]

InitWith(c, m) ==
    /\ cap = c /\ mrg = m /\ now = 0
    /\ ep = [i \in E |-> Fresh]
    /\ net = [i \in E |-> {}]
    /\ obs = [res |-> "init"]
    /\ sentMsgs = [i \in E |-> <<>>]
    /\ dlvd = [i \in E |-> <<>>]
    /\ lastAck = [i \in E |-> 0]
    /\ forged = FALSE

\* start over with fresh endpoints (a new episode of a recorded run)
Reset(c, m) ==
    /\ cap' = c /\ mrg' = m /\ now' = 0
    /\ ep' = [i \in E |-> Fresh]
    /\ net' = [i \in E |-> {}]
    /\ obs' = [res |-> "init"]
    /\ sentMsgs' = [i \in E |-> <<>>]
    /\ dlvd' = [i \in E |-> <<>>]
    /\ lastAck' = [i \in E |-> 0]
    /\ forged' = FALSE

Flat(ss) == FlattenSeq(ss)
NextSeq(s) == s.left + Len(s.sbuf)
Status(s) == [slen |-> Len(s.sbuf), rlen |-> Len(s.rbuf), ackseq |-> s.rleft]
Obs(s, r) == r @@ Status(s)

-----------------------------------------------------------------------------
(* Sending *)

Send(i, d, fail, to) ==
    LET s == ep[i]
        p == <<NextSeq(s), -1, -1, d>>
        ok == Len(s.sbuf) < cap
        s2 == IF ok /\ ~fail
              THEN [s EXCEPT !.sbuf = Append(@, [p |-> p, due |-> now + to])]
              ELSE s
    IN  /\ ep' = [ep EXCEPT ![i] = s2]
        /\ net' = IF ok /\ ~fail THEN [net EXCEPT ![i] = @ \cup {p}] ELSE net
        /\ sentMsgs' = IF ok /\ ~fail THEN [sentMsgs EXCEPT ![i] = Append(@, d)] ELSE sentMsgs
        /\ obs' = Obs(s2, [res |-> IF ~ok THEN "full" ELSE IF fail THEN "fail" ELSE "ok",
                           tx |-> IF ok THEN <<p>> ELSE <<>>])
        /\ UNCHANGED <<cap, mrg, now, dlvd, lastAck, forged>>

\* ds: payload of each fragment.  The first fragment announces how many there are.
SendFrag(i, ds, to) ==
    LET s == ep[i]
        n == Len(ds)
        ok == Len(s.sbuf) + n < cap
        pk(k) == <<NextSeq(s) + k - 1, -1, IF k = 1 THEN n ELSE -1, ds[k]>>
        tx == IF ok THEN [k \in 1..n |-> pk(k)] ELSE <<>>
        s2 == [s EXCEPT !.sbuf = @ \o [k \in 1..Len(tx) |-> [p |-> tx[k], due |-> now + to]]]
    IN  /\ ep' = [ep EXCEPT ![i] = s2]
        /\ net' = [net EXCEPT ![i] = @ \cup ToSet(tx)]
        /\ sentMsgs' = IF ok /\ n > 0 THEN [sentMsgs EXCEPT ![i] = Append(@, Flat(ds))] ELSE sentMsgs
        /\ obs' = Obs(s2, [res |-> IF ok THEN "ok" ELSE "full", tx |-> tx,
                           idx |-> [k \in 1..Len(tx) |-> k - 1]])
        /\ UNCHANGED <<cap, mrg, now, dlvd, lastAck, forged>>

SendAck(i, fail) ==
    LET s == ep[i]
        p == <<-1, s.rleft, -1, <<>>>>
        s2 == IF s.ack /\ ~fail THEN [s EXCEPT !.ack = FALSE] ELSE s
    IN  /\ ep' = [ep EXCEPT ![i] = s2]
        /\ net' = IF s.ack /\ ~fail THEN [net EXCEPT ![i] = @ \cup {p}] ELSE net
        /\ lastAck' = IF s.ack /\ ~fail THEN [lastAck EXCEPT ![i] = s.rleft] ELSE lastAck
        /\ obs' = Obs(s2, [res |-> IF ~s.ack THEN "none" ELSE IF fail THEN "fail" ELSE "ok",
                           ret |-> IF s.ack /\ ~fail THEN s.rleft ELSE -1,
                           tx |-> IF s.ack THEN <<p>> ELSE <<>>])
        /\ UNCHANGED <<cap, mrg, now, sentMsgs, dlvd, forged>>

\* Everything due is retransmitted, oldest first, up to the first failing transmission (failat, 0: none).
Resend(i, failat, to) ==
    LET s == ep[i]
        due == SetToSortSeq({k \in DOMAIN s.sbuf : now >= s.sbuf[k].due}, <)
        stop == failat > 0 /\ failat <= Len(due)
        tried == IF stop THEN SubSeq(due, 1, failat) ELSE due
        done == IF stop THEN SubSeq(due, 1, failat - 1) ELSE due
        s2 == [s EXCEPT !.sbuf = [k \in DOMAIN @ |->
                    IF k \in ToSet(done) THEN [@[k] EXCEPT !.due = now + to] ELSE @[k]]]
    IN  /\ ep' = [ep EXCEPT ![i] = s2]
        /\ net' = [net EXCEPT ![i] = @ \cup {s.sbuf[k].p : k \in ToSet(done)}]
        /\ obs' = Obs(s2, [res |-> IF stop THEN "fail" ELSE "ok",
                           tx |-> [k \in DOMAIN tried |-> s.sbuf[tried[k]].p]])
        /\ UNCHANGED <<cap, mrg, now, sentMsgs, dlvd, lastAck, forged>>

Tick(i, dt) ==
    /\ now' = now + dt
    /\ obs' = Obs(ep[i], [res |-> "ok"])
    /\ UNCHANGED <<cap, mrg, ep, net, sentMsgs, dlvd, lastAck, forged>>

-----------------------------------------------------------------------------
(* Receiving *)

\* A message handed out is whatever was merged, or the payload of a plain packet.
RECURSIVE Merge(_, _)
Merge(pkts, st) ==   \* st: [mb, mend, out, res]
    IF pkts = <<>> \/ st.res # "ok" THEN st
    ELSE LET p == Head(pkts)
             seq == p[1] np == p[3] d == p[4]
             abandoned == st.mend # 0 /\ ~st.mb.on /\ seq <= st.mend
             got == Append(st.mb.got, d)
             st2 ==
               IF abandoned THEN st
               ELSE IF st.mb.on THEN
                 IF np > 0 THEN [st EXCEPT !.mb = NoMB, !.res = "conflict"]
                 ELSE IF Len(got) = st.mb.need
                      THEN [st EXCEPT !.mb = NoMB, !.out = Append(@, Flat(got))]
                      ELSE [st EXCEPT !.mb.got = got]
               ELSE IF np <= 1 THEN [st EXCEPT !.out = Append(@, d)]
               ELSE IF np > cap THEN [st EXCEPT !.res = "badnum" \o ToString(np)]
               ELSE [st EXCEPT !.mb = [on |-> TRUE, need |-> np, got |-> <<d>>],
                               !.mend = seq + np - 1]
         IN  Merge(Tail(pkts), st2)

AckEffect(s, a) ==
    IF a > NextSeq(s) \/ a < s.left THEN s
    ELSE [s EXCEPT !.sbuf = SubSeq(@, a - s.left + 1, Len(@)), !.left = a]

\* rbuf: position k holds <<>> or <<packet>> with sequence number rleft + k - 1
Placed(rb, pos, p) ==
    [k \in 1..(IF pos > Len(rb) THEN pos ELSE Len(rb)) |->
        IF k = pos THEN <<p>> ELSE IF k <= Len(rb) THEN rb[k] ELSE <<>>]
RECURSIVE Run(_, _)
Run(rb, k) == IF k < Len(rb) /\ rb[k + 1] # <<>> THEN Run(rb, k + 1) ELSE k

Recv(i, p) ==
    LET s == ep[i]
        seq == p[1] ack == p[2] d == p[4]
        pos == seq - s.rleft + 1
        rb == Placed(s.rbuf, pos, p)
        n == Run(rb, 0)
        ready == [k \in 1..n |-> rb[k][1]]
        s1 == [s EXCEPT !.rbuf = SubSeq(rb, n + 1, Len(rb)), !.rleft = @ + n,
                        !.ack = @ \/ n > 0]
        m == IF mrg THEN Merge(ready, [mb |-> s.mb, mend |-> s.mend, out |-> <<>>, res |-> "ok"])
             ELSE [mb |-> s.mb, mend |-> s.mend, out |-> [k \in 1..n |-> ready[k][4]], res |-> "ok"]
        r == IF ack >= 0 THEN [s |-> AckEffect(s, ack), res |-> "ok", out |-> <<>>]
             ELSE IF seq < 0 THEN [s |-> s, res |-> "ok", out |-> <<d>>]
             ELSE IF pos < 1 THEN [s |-> [s EXCEPT !.ack = TRUE], res |-> "ok", out |-> <<>>]
             ELSE IF pos > cap THEN [s |-> s, res |-> "full" \o ToString(seq), out |-> <<>>]
             ELSE [s |-> [s1 EXCEPT !.mb = m.mb, !.mend = m.mend], res |-> m.res,
                   out |-> IF m.res = "ok" THEN m.out ELSE <<>>]
    IN  /\ ep' = [ep EXCEPT ![i] = r.s]
        /\ dlvd' = [dlvd EXCEPT ![i] = @ \o r.out]
        /\ forged' = (forged \/ p \notin net[1 - i])
        /\ obs' = Obs(r.s, [res |-> r.res, out |-> r.out])
        /\ UNCHANGED <<cap, mrg, now, net, sentMsgs, lastAck>>

Lose(i, p) ==
    /\ net' = [net EXCEPT ![i] = @ \ {p}]
    /\ UNCHANGED <<cap, mrg, now, ep, obs, sentMsgs, dlvd, lastAck, forged>>

-----------------------------------------------------------------------------
(* Properties *)

Honest == ~forged
\* what i sent, as the receiver will see it: whole messages, or the packets when not merging
\* R01, R04: no loss, duplication, reordering, alteration, partial delivery
InOrderExactlyOnce == Honest /\ mrg => \A i \in E : IsPrefix(dlvd[1 - i], sentMsgs[i])
InOrderPackets == Honest /\ ~mrg => \A i \in E : IsPrefix(Flat(dlvd[1 - i]), Flat(sentMsgs[i]))
\* R02
WindowsBounded == \A i \in E : Len(ep[i].sbuf) <= cap /\ Len(ep[i].rbuf) <= cap
\* the first buffered out-of-order position is always a gap
GapFirst == \A i \in E : ep[i].rbuf # <<>> => ep[i].rbuf[1] = <<>>
\* R03
AckTruthful == Honest => \A i \in E : \A p \in net[i] : p[2] >= 0 => p[2] <= ep[i].rleft
DropsOnlyConsumed == Honest => \A i \in E : ep[i].left <= ep[1 - i].rleft
KeepsUnacked == \A i \in E : \A k \in DOMAIN ep[i].sbuf : ep[i].sbuf[k].p[1] = ep[i].left + k - 1
AckDue == \A i \in E : ep[i].rleft > 1 /\ lastAck[i] < ep[i].rleft => ep[i].ack
\* a reassembly in progress is always for the packets just below the window
MergeProgress == Honest /\ mrg => \A i \in E : ep[i].mb.on =>
    ep[i].mend - ep[i].rleft + 1 = ep[i].mb.need - Len(ep[i].mb.got)
=============================================================================
