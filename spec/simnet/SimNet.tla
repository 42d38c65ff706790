------------------------------- MODULE SimNet -------------------------------
(* The simulated network (simnet/router.rs).  Hosts hang on a router by a     *)
(* sending and a receiving link.  A link is [dmin, dmax (ms), loss, rep       *)
(* (0 never, 1 sometimes, 2 always; rep: after a loss), kbps, queue (bytes)]. *)
(* A packet is [src, dst (host numbers; 0: an address nobody has), size].     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Wire(host, size) == size + (IF host.v6 THEN 48 ELSE 28)     \* with headers

\* what becomes of packet number p, sent in this order, at the loss stage of its sending link
Before(ps, p, ok(_)) == SelectSeq([i \in 1..p |-> i], ok)
RECURSIVE LossRun(_, _, _)
LossRun(n, link, prev) == \* fate of the n-th packet over a link: "pass", "lost", "may"
    LET pr == IF prev = "lost" THEN link.rep ELSE IF prev = "pass" THEN link.loss ELSE IF link.rep = link.loss THEN link.loss ELSE 1
        now == IF pr = 0 THEN "pass" ELSE IF pr = 2 THEN "lost" ELSE "may"
    IN IF n = 1 THEN now ELSE LossRun(n - 1, link, now)
Fate1(hs, ps, p) == LossRun(Len(Before(ps, p, LAMBDA i : ps[i].src = ps[p].src)), hs[ps[p].src].send, "pass")
\* receiving links see packets in an order that depends on delays
Fate2(hs, ps, p) == LET r == hs[ps[p].dst].recv IN
                    IF r.loss = 0 THEN "pass" ELSE IF r.loss = 2 /\ r.rep = 2 THEN "lost" ELSE "may"
Sum(ps, hs, I) == FoldSet(LAMBDA i, a : a + Wire(hs[ps[i].src], ps[i].size), 0, I)
Known(hs, ps, p) == ps[p].src \in DOMAIN hs /\ ps[p].dst \in DOMAIN hs
Size(hs, ps, p) == Wire(hs[ps[p].src], ps[p].size)
Never(hs, ps, p) == \/ ~Known(hs, ps, p)
                    \/ Fate1(hs, ps, p) = "lost" \/ Fate2(hs, ps, p) = "lost"
                    \/ Size(hs, ps, p) > hs[ps[p].src].send.queue \/ Size(hs, ps, p) > hs[ps[p].dst].recv.queue
\* queues that cannot overflow whatever the timing
Roomy(hs, ps, p) == /\ Sum(ps, hs, {i \in DOMAIN ps : ps[i].src = ps[p].src}) <= hs[ps[p].src].send.queue
                    /\ Sum(ps, hs, {i \in DOMAIN ps : ps[i].src \in DOMAIN hs /\ ps[i].dst = ps[p].dst}) <= hs[ps[p].dst].recv.queue
Must(hs, ps, p) == Known(hs, ps, p) /\ Fate1(hs, ps, p) = "pass" /\ Fate2(hs, ps, p) = "pass" /\ Roomy(hs, ps, p)
\* a burst of equal packets from one host at once: at least what fits, and at most one more (already on the wire)
Fits(hs, ps) == hs[1].send.queue \div Size(hs, ps, 1)

\* microseconds a packet spends on the wire of a link, and the least it needs from end to end
Tx(link, bytes) == (bytes * 8000) \div link.kbps
Least(hs, ps, p) == LET s == hs[ps[p].src].send r == hs[ps[p].dst].recv b == Size(hs, ps, p) IN
                    1000 * (s.dmin + r.dmin) + Tx(s, b) + Tx(r, b)
=============================================================================
