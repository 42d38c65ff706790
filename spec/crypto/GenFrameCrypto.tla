--------------------------- MODULE GenFrameCrypto ---------------------------
(* Stimuli from the model with the real constants.  Node 1 sends, node 2 receives; *)
(* frames may be delivered in any order, any number of times; Burst skips frames.  *)
EXTENDS FrameCrypto, Json
CONSTANTS Depth, Bursts, Steps, MaxKeys, AllFrames
VARIABLE hist
gvars == <<vars, hist>>
GInit == /\ nodes = {1, 2}
         /\ snd = [s \in {1, 2} |-> [k |-> s, n |-> 0]]
         /\ fc = [s \in {1, 2} |-> 0]
         /\ rcv = [r \in {1, 2} |-> [x \in {1, 2} |-> <<>>]]
         /\ errs = [r \in {1, 2} |-> [x \in {1, 2} |-> NoErr]]
         /\ frames = <<>> /\ anns = <<>> /\ keys = 2 /\ obs = [res |-> "init"]
         /\ hist = <<[n |-> 2]>>
Do(i) == hist' = Append(hist, i)
GNext ==
    /\ Len(hist) <= Depth
    /\ IF Len(hist) = 1 THEN Announce(1) /\ Do([op |-> "Announce", s |-> 1])
       ELSE IF Len(hist) = 2 THEN AddKey(2, 1, anns[1]) /\ Do([op |-> "AddKey", r |-> 2, x |-> 1, a |-> 1])
       ELSE
       \/ Encrypt(1, fc[1] + 1) /\ Do([op |-> "Encrypt", s |-> 1, len |-> 20])
       \/ \E b \in Bursts : Burst(1, fc[1] + b) /\ Do([op |-> "Burst", s |-> 1, n |-> b])
       \/ \E k \in Steps : Advance(1, k) /\ Do([op |-> "Advance", s |-> 1, times |-> k])
       \/ keys < MaxKeys + 1 /\ ResetKey(1) /\ Do([op |-> "ResetKey", s |-> 1])
       \/ Len(anns) > 0 /\ AddKey(2, 1, anns[Len(anns)]) /\ keys > 2 /\ Do([op |-> "AddKey", r |-> 2, x |-> 1, a |-> Len(anns)])
       \/ keys > 2 /\ (\A i \in DOMAIN anns : anns[i].k # snd[1].k) /\ Announce(1) /\ Do([op |-> "Announce", s |-> 1])
       \/ \E i \in DOMAIN frames : /\ AllFrames \/ i >= Len(frames) - 3
             /\ Decrypt(2, 1, Clean(frames[i])) /\ Do([op |-> "Decrypt", r |-> 2, x |-> 1, f |-> i, alter |-> "none", pos |-> 0])
GSpec == GInit /\ [][GNext]_gvars
\* only behaviours that end with a delivery add anything
Emit == Len(hist) = Depth + 1 /\ hist[Len(hist)].op = "Decrypt" => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
