------------------------------ MODULE TraceCall ------------------------------
(* Recorded runs of the call manager against Call: one stimulus at a time.   *)
EXTENDS Call, TraceKit
VARIABLES l, ms, skip, n \* ms: the states the manager may be in, n: calls of each id not concluded yet
tvars == <<l, ms, skip, n>>

BagOf(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Of(s, c) == SelectSeq(s, LAMBDA x : x.c = c)
Ids(s) == {s[i].c : i \in DOMAIN s}
(* events of one call are told from two threads: their order counts only relative to its ends *)
EndsBefore(t, i) == Cardinality({j \in 1..(i - 1) : t[j].e = "ended"})
LifeOf(s) == [c \in Ids(s) |-> LET t == Of(s, c) IN BagOf([i \in DOMAIN t |-> <<EndsBefore(t, i), t[i]>>])]

(* per connection: additions in their order and removals in theirs; messages held back until the *)
(* connection exists are applied as one, additions first                                        *)
Removes(x) == x \in {"-" \o ToString(i) : i \in 0..99}
Keeps(x) == ~Removes(x)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).cands \o Flat(Tail(s))
Split(c, d, s) == [c |-> c, d |-> d, add |-> SelectSeq(s, Keeps), rem |-> SelectSeq(s, Removes)]
IceOf(s) == {Split(k[1], k[2], Flat(SelectSeq(s, LAMBDA y : <<y.c, y.d>> = k))) : k \in {<<s[i].c, s[i].d>> : i \in DOMAIN s}}

(* what the model says, in the form it is compared *)
Seen(W) ==
  LET c == W.m.active
      conns == IF c = 0 THEN << >> ELSE W.m.calls[c].conns
  IN [life |-> LifeOf(W.o.life), stat |-> W.o.stat, send |-> W.o.send, media |-> W.o.media, route |-> W.o.route, ice |-> IceOf(W.o.ice),
      rtp |-> BagOf(W.o.rtp), rh |-> W.o.rh, active |-> c, busy |-> W.m.busy,
      talking |-> {d \in DOMAIN conns : conns[d].talk},
      rates |-> {[d |-> d, rate |-> MaxRate(conns[d])] : d \in {e \in DOMAIN conns : e # 0}}]

(* what was recorded, in that form *)
RtpOf(x) == [c |-> x.c, d |-> x.d, m |-> x.m]
Logged(o, W) ==
  LET hs == SelectSeq(o.rtp, LAMBDA x : x.m.h # "")
      rest == SelectSeq(o.rtp, LAMBDA x : x.m.h = "")
      bye == {[c |-> hs[i].c, d |-> hs[i].d, h |-> hs[i].m.h, hd |-> hs[i].m.hd] : i \in DOMAIN hs}
  IN [life |-> LifeOf(o.life), stat |-> o.stat, send |-> o.send, media |-> o.media, route |-> o.route, ice |-> {Split(o.ice[i].c, o.ice[i].d, o.ice[i].l) : i \in DOMAIN o.ice},
      rtp |-> BagOf([i \in DOMAIN rest |-> RtpOf(rest[i])]), rh |-> IF bye \subseteq W.o.rh THEN W.o.rh ELSE bye,
      active |-> o.active, busy |-> o.busy, talking |-> ToSet(o.talking),
      rates |-> {[d |-> r.d, rate |-> r.rate] : r \in {o.rates[i] : i \in {j \in DOMAIN o.rates :
                    W.m.active # 0 => o.rates[j].d \in DOMAIN W.m.calls[W.m.active].conns}}},
      own |-> \A i \in DOMAIN o.rtp : "own" \in DOMAIN o.rtp[i] /\ o.rtp[i].own]

(* The record in the order it was made. Each call asked for and each offer is one call, which    *)
(* concludes once, and nothing is heard of it afterwards.                                        *)
Count(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
Asks(e) == IF e.op \in {"call", "offer"} /\ ~(e.op = "call" /\ \E m \in ms : m.busy /\ Mine(World(m), e)) THEN {e.c} ELSE {}
RECURSIVE Run(_, _)
Run(acc, s) ==
  IF s = <<>> THEN acc
  ELSE LET c == Head(s).c
           k == Count(acc.n, c)
       IN Run(IF Head(s).e = "concluded" THEN [n |-> Put(acc.n, c, k - 1), ok |-> acc.ok /\ k > 0]
              ELSE [acc EXCEPT !.ok = @ /\ k > 0], Tail(s))
RECURSIVE Plus(_, _)
Plus(f, C) == IF C = {} THEN f ELSE LET c == CHOOSE x \in C : TRUE IN Plus(Put(f, c, Count(f, c) + 1), C \ {c})
Ordered(f, o) == Run([n |-> f, ok |-> TRUE], o.order)
AllOver(f) == \A c \in DOMAIN f : f[c] = 0

(* A whole script at once: whatever the threads of the manager made of it, the order has to hold; *)
(* no offer goes out for a call that is over, and a call that was offered and ended here is hung  *)
(* up.                                                                                            *)
HereReasons == {"LocalHangup", "Timeout", "InternalFailure", "ConnectionFailure", "SignalingFailure", "RemoteGlare"}
Times(ops, c, K) == Cardinality({i \in DOMAIN ops : ops[i].op \in K /\ ops[i].c = c})
RECURSIVE PlusAll(_, _)
PlusAll(f, ops) == IF ops = <<>> THEN f
                   ELSE PlusAll(IF Head(ops).op \in {"call", "offer"} THEN Put(f, Head(ops).c, Count(f, Head(ops).c) + 1) ELSE f, Tail(ops))
Placed(ops) == {c \in {ops[i].c : i \in {j \in DOMAIN ops : ops[j].op = "call"}} : Times(ops, c, {"call"}) = 1 /\ Times(ops, c, {"offer"}) = 0}
At(s, c, e, A) == {i \in DOMAIN s : s[i].c = c /\ s[i].e = e /\ (A = {} \/ s[i].a \in A)}
Untroubled(ops) == \A i \in DOMAIN ops : ops[i].op \notin {"fault", "failed", "reset"}
HungUp(ops, s) ==
  \A c \in Placed(ops) :
     LET off == At(s, c, "send", {"offer"})
         over == At(s, c, "ended", {})
         here == At(s, c, "ended", HereReasons)
     IN /\ Cardinality(off) <= 1 /\ Cardinality(over) <= 1
        /\ \A i \in off, j \in over : i < j
        /\ (off # {} /\ here # {} /\ Untroubled(ops)) => At(s, c, "send", {"hangup"}) # {}

TraceInit == l = 1 /\ ms = {M0} /\ skip = FALSE /\ n = << >>
(* If the application cannot play, the connection may have gone some way before the call ends.   *)
Spoilt(W) == "connect" \notin W.m.faults /\ \E m \in ms : "connect" \in m.faults
Verdict(W, o) == DiffOf("Step", Logged(o, W), Seen(W) @@ [own |-> TRUE]) \ (IF Spoilt(W) THEN {"stat", "rtp"} ELSE {})
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN skip' = FALSE /\ ms' = {M0} /\ n' = << >>
        ELSE IF skip THEN UNCHANGED <<ms, skip, n>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ skip' = TRUE /\ UNCHANGED <<ms, n>>
        ELSE IF e.ev = "Batch" THEN
             LET r == Ordered(PlusAll(n, e.ops), e.obs)
                 d == ((IF r.ok THEN {} ELSE {"order"}) \union (IF HungUp(e.ops, e.obs.order) THEN {} ELSE {"hungup"})) \cap Relevant("Step")
             IN (d # {} => ReportDiff(l, "Batch", d, [order |-> r.n])) /\ n' = r.n /\ UNCHANGED <<ms, skip>>
        ELSE IF e.ev = "End" THEN
             LET r == Ordered(n, e.obs)
                 left == "threads" \in DOMAIN e.obs /\ (IF "threads" \in DOMAIN e.obs THEN e.obs.threads # 0 ELSE FALSE)
                 d == ((IF r.ok /\ AllOver(r.n) THEN {} ELSE {"order"}) \union (IF left THEN {"threads"} ELSE {})) \cap Relevant("Step")
             IN (d # {} => ReportDiff(l, "End", d, [order |-> r.n])) /\ n' = r.n /\ UNCHANGED <<ms, skip>>
        ELSE LET Ws == UNION {Steps(m, e) : m \in ms}
                 good == {W \in Ws : Verdict(W, e.obs) = {}}
                 r == Ordered(Plus(n, Asks(e)), e.obs)
                 late == (IF r.ok THEN {} ELSE {"order"}) \cap Relevant("Step")
             IN IF good # {} /\ late = {} THEN ms' = {W.m : W \in good} /\ skip' = FALSE /\ n' = r.n
                ELSE LET W == CHOOSE W \in Ws : \A V \in Ws : Cardinality(Verdict(W, e.obs)) <= Cardinality(Verdict(V, e.obs)) IN
                     ReportDiff(l, e.ev, Verdict(W, e.obs) \union late, [order |-> r.n] @@ Seen(W)) /\ skip' = TRUE /\ ms' = {W.m} /\ n' = r.n
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
