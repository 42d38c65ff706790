---------------------------- MODULE FrameCrypto ----------------------------
(* Frame encryption of group calls (/repo/src/rust/src/core/crypto.rs), symbolically.        *)
(* A secret is <<k, n>>: key k after n one-way ratchet steps; from <<k, n>> exactly the      *)
(* <<k, m>> with m >= n can be computed.  On the wire only the step count modulo M is sent.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS
    M,          \* ratchet counters are modulo M (256)
    OOOFrames,  \* out-of-order tolerance in frames (300)
    OOORatchets,\* out-of-order tolerance in ratchet steps (5)
    Retain,     \* receive keys retained per sender (5)
    WrapDist    \* TRUE: frame distance of an older frame counts as huge (the code before its repair)

VARIABLES
    nodes,      \* set of contexts in use
    snd,        \* snd[s] = [k, n]: current send secret
    fc,         \* fc[s]: counter of the last frame encrypted
    rcv,        \* rcv[r][x]: receive states of context r for sender id x, newest first
    errs,       \* errs[r][x] = [count, fresh]: failures; fresh: since the last report request
    frames,     \* every frame encrypted so far
    anns,       \* every announcement [k, n, c] taken so far
    keys,       \* number of keys created
    obs

vars == <<nodes, snd, fc, rcv, errs, frames, anns, keys, obs>>
View == <<nodes, snd, fc, rcv, errs, frames, anns, keys>>
NoErr == [count |-> 0, fresh |-> FALSE]

Start(ns) ==   \* every node creates its context with a key of its own; node i has key i
    /\ nodes' = ns
    /\ snd' = [s \in ns |-> [k |-> s, n |-> 0]]
    /\ fc' = [s \in ns |-> 0]
    /\ rcv' = [r \in ns |-> [x \in ns |-> <<>>]]
    /\ errs' = [r \in ns |-> [x \in ns |-> NoErr]]
    /\ frames' = <<>> /\ anns' = <<>>
    /\ keys' = Cardinality(ns)
    /\ obs' = [res |-> "ok"]

-----------------------------------------------------------------------------
(* Sending.  cnt is the counter the code chose: anything greater than all before. *)
Encrypt(s, cnt) ==
    /\ fc' = [fc EXCEPT ![s] = cnt]
    /\ frames' = Append(frames, [s |-> s, k |-> snd[s].k, n |-> snd[s].n, c |-> snd[s].n % M, fc |-> cnt])
    /\ obs' = [res |-> "ok", c |-> snd[s].n % M, fcgrows |-> cnt > fc[s], ksfresh |-> TRUE, changed |-> TRUE]
    /\ UNCHANGED <<nodes, snd, rcv, errs, anns, keys>>

Advance(s, times) ==
    LET t == [snd[s] EXCEPT !.n = @ + times] IN
    /\ snd' = [snd EXCEPT ![s] = t]
    /\ anns' = Append(anns, [k |-> t.k, n |-> t.n, c |-> t.n % M])
    /\ obs' = [res |-> "ok", c |-> t.n % M, sec |-> <<t.k, t.n>>]
    /\ UNCHANGED <<nodes, fc, rcv, errs, frames, keys>>

\* many frames at once that are never delivered: counters up to cnt are used up
Burst(s, cnt) ==
    /\ fc' = [fc EXCEPT ![s] = cnt]
    /\ obs' = [res |-> "ok", fcgrows |-> cnt > fc[s], ksfresh |-> TRUE]
    /\ UNCHANGED <<nodes, snd, rcv, errs, frames, anns, keys>>

ResetKey(s) ==
    /\ keys' = keys + 1
    /\ snd' = [snd EXCEPT ![s] = [k |-> keys + 1, n |-> 0]]
    /\ obs' = [res |-> "ok"]
    /\ UNCHANGED <<nodes, fc, rcv, errs, frames, anns>>

Announce(s) ==
    /\ anns' = Append(anns, [k |-> snd[s].k, n |-> snd[s].n, c |-> snd[s].n % M])
    /\ obs' = [res |-> "ok", c |-> snd[s].n % M, sec |-> <<snd[s].k, snd[s].n>>]
    /\ UNCHANGED <<nodes, snd, fc, rcv, errs, frames, keys>>

-----------------------------------------------------------------------------
(* Receiving *)
\* maxn, maxfc, base: ghosts for the property
NewState(a) == [k |-> a.k, n |-> a.n, c |-> a.c, rf |-> 0, on |-> a.n, oc |-> a.c,
                base |-> a.n, maxn |-> a.n, maxfc |-> 0]

\* announcement a is delivered to r as the key of sender x
AddKey(r, x, a) ==
    /\ rcv' = [rcv EXCEPT ![r][x] = <<NewState(a)>> \o SubSeq(@, 1, IF Len(@) < Retain - 1 THEN Len(@) ELSE Retain - 1)]
    /\ obs' = [res |-> "ok"]
    /\ UNCHANGED <<nodes, snd, fc, errs, frames, anns, keys>>

Larger(a, b) == IF a > b THEN a ELSE b
Dist(a, b) == IF a >= b THEN a - b ELSE IF WrapDist THEN 2000000000 ELSE 0
Sub(a, b) == (a - b) % M      \* u8 wrapping subtraction

\* the receive state ratcheted so that its counter is c, for a frame with counter f
Ratcheted(st, c, f) ==
    LET fwd == f > st.rf
        n0 == IF fwd THEN st.n ELSE st.on
        c0 == IF fwd THEN st.c ELSE st.oc
        n1 == n0 + Sub(c, c0)
        moveOld == Dist(f, st.rf) > OOOFrames
        on1 == IF moveOld THEN st.n ELSE st.on
        oc1 == IF moveOld THEN st.c ELSE st.oc
        gap == Sub(c, oc1)
        adv == IF gap > OOORatchets THEN gap - OOORatchets ELSE 0
    IN  [st EXCEPT !.n = n1, !.c = c, !.rf = f, !.on = on1 + adv, !.oc = (oc1 + adv) % M]

\* f: frame fields as received [k, n: what it was really encrypted with; c, fc: as labelled; ok: unaltered]
DirectHit(sts, f) == {i \in DOMAIN sts : sts[i].c = f.c /\ f.ok /\ sts[i].k = f.k /\ sts[i].n = f.n}
RatchetHit(sts, f) == {i \in DOMAIN sts : LET t == Ratcheted(sts[i], f.c, f.fc) IN f.ok /\ t.k = f.k /\ t.n = f.n}
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
Opens(sts, f) == DirectHit(sts, f) # {} \/ RatchetHit(sts, f) # {}
Ghost(st, f) == [st EXCEPT !.maxn = Larger(@, f.n), !.maxfc = Larger(@, f.fc)]

Stats(r, E) == SetToSortSeq({<<x, E[r][x].count>> : x \in {y \in nodes : E[r][y].count > 0}},
                           LAMBDA a, b : a[1] < b[1])

Decrypt(r, x, f) ==
    LET sts == rcv[r][x]
        d == DirectHit(sts, f)
        h == RatchetHit(sts, f)
        sts2 == IF d # {} THEN [sts EXCEPT ![MinOf(d)] = Ghost(@, f)]
                ELSE IF h # {} THEN [sts EXCEPT ![MinOf(h)] = Ghost(Ratcheted(@, f.c, f.fc), f)]
                ELSE sts
        ok == d # {} \/ h # {}
    IN  /\ rcv' = [rcv EXCEPT ![r][x] = sts2]
        /\ errs' = IF ok THEN errs ELSE [errs EXCEPT ![r][x] = [count |-> @.count + 1, fresh |-> TRUE]]
        /\ obs' = [res |-> IF ok THEN "ok" ELSE "err", intact |-> TRUE, stats |-> Stats(r, errs')]
        /\ UNCHANGED <<nodes, snd, fc, frames, anns, keys>>

\* senders with failures, none of them since the last request, are reported and forgotten
Report(r) ==
    LET due == {x \in nodes : errs[r][x].count > 0 /\ ~errs[r][x].fresh} IN
    /\ errs' = [errs EXCEPT ![r] = [x \in nodes |-> IF x \in due THEN NoErr ELSE [@[x] EXCEPT !.fresh = FALSE]]]
    /\ obs' = [res |-> "ok",
               report |-> SetToSortSeq({<<x, errs[r][x].count>> : x \in due}, LAMBDA a, b : a[1] < b[1]),
               timesok |-> TRUE, stats |-> Stats(r, errs')]
    /\ UNCHANGED <<nodes, snd, fc, rcv, frames, anns, keys>>

-----------------------------------------------------------------------------
(* Properties *)
Clean(f) == [k |-> f.k, n |-> f.n, c |-> f.c, fc |-> f.fc, ok |-> TRUE]
\* E01: unaltered frames within the tolerance of a retained key open
WithinTolerance(st, f) ==
    /\ f.k = st.k
    /\ f.n >= st.base                              \* not older than the key handed out
    /\ f.n >= st.maxn - OOORatchets                \* not too many ratchet steps behind the newest
    /\ f.fc >= st.maxfc - OOOFrames                \* not too many frames behind the newest
    /\ f.n < st.base + M - OOORatchets /\ f.n < st.maxn + M - OOORatchets
TolerantDecryption ==
    \A r \in nodes, x \in nodes : \A i \in DOMAIN rcv[r][x] : \A j \in DOMAIN frames :
        WithinTolerance(rcv[r][x][i], frames[j]) => Opens(rcv[r][x], Clean(frames[j]))
\* E04: what opens is never older than some key that was handed over, and keys expire
ForwardSecret ==
    \A r \in nodes, x \in nodes : \A j \in DOMAIN frames :
        Opens(rcv[r][x], Clean(frames[j])) =>
            \E i \in DOMAIN rcv[r][x] : rcv[r][x][i].k = frames[j].k /\ rcv[r][x][i].base <= frames[j].n
Bounded == \A r \in nodes, x \in nodes : Len(rcv[r][x]) <= Retain
\* E03
DistinctKeystreams == \A i, j \in DOMAIN frames : i # j /\ frames[i].s = frames[j].s => frames[i].fc # frames[j].fc
\* the retained old position never is ahead of the current one
OldBehind == \A r \in nodes, x \in nodes : \A i \in DOMAIN rcv[r][x] :
    LET st == rcv[r][x][i] IN st.on <= st.n /\ st.n - st.on <= OOORatchets
CounterMatches == \A r \in nodes, x \in nodes : \A i \in DOMAIN rcv[r][x] :
    LET st == rcv[r][x][i] IN st.c = st.n % M /\ st.oc = st.on % M
=============================================================================
