--------------------------- MODULE MCFrameCrypto ---------------------------
EXTENDS FrameCrypto
CONSTANTS MaxFrames, MaxKeys, MaxAdv, MaxAnn
\* node 1 sends, node 2 receives
MInit == /\ nodes = {1, 2}
         /\ snd = [s \in {1, 2} |-> [k |-> s, n |-> 0]]
         /\ fc = [s \in {1, 2} |-> 0]
         /\ rcv = [r \in {1, 2} |-> [x \in {1, 2} |-> <<>>]]
         /\ errs = [r \in {1, 2} |-> [x \in {1, 2} |-> NoErr]]
         /\ frames = <<>> /\ anns = <<>> /\ keys = 2 /\ obs = [res |-> "init"]
MNext ==
    \/ Len(frames) < MaxFrames /\ Encrypt(1, fc[1] + 1)
    \* ratcheting more than once without a frame in between is bounded too
    \/ snd[1].n < MaxAdv /\ Advance(1, 1)
    \/ keys < MaxKeys + 1 /\ ResetKey(1)
    \/ Len(anns) < MaxAnn /\ (\A i \in DOMAIN anns : anns[i].k # snd[1].k) /\ Announce(1)
    \/ \E i \in DOMAIN anns : anns[i].k = snd[1].k /\ (\A j \in DOMAIN rcv[2][1] : rcv[2][1][j].k # anns[i].k) /\ AddKey(2, 1, anns[i])
    \/ \E i \in DOMAIN frames : Opens(rcv[2][1], Clean(frames[i])) /\ Decrypt(2, 1, Clean(frames[i]))
MSpec == MInit /\ [][MNext]_vars
\* E02: a refused frame changes no receive state
RefusedNoEffect == [][obs'.res = "err" => rcv' = rcv]_vars
=============================================================================
