---------------------------- MODULE KeyAgreement ----------------------------
(* Media keys of 1:1 calls.  A caller A offers one public value to all of    *)
(* the callee's devices; each device answers with one of its own, and both   *)
(* derive two directional keys from the shared secret of the two values and  *)
(* the two identities.  The network may replace public values, and each end  *)
(* has its own view of who the two identities are.                           *)
(* Values are symbolic: a secret is a tuple, pub(s) is the secret itself in  *)
(* the place of a public value, dh(s, P) the unordered pair.                 *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Devices, MaxCalls, Hows, Views

VARIABLES call,     \* number of the call in progress
          over,     \* A's call has failed
          bEnd,     \* device -> what its media stack was given
          bSaw,     \* device -> [pub, ids] it was given
          aEnd,     \* device -> what A's media stack was given for that device
          aSaw
vars == <<call, over, bEnd, bSaw, aEnd, aSaw>>

Ours(c) == <<"A", c, 0>>
Theirs(c, d) == <<"B", c, d>>
Evil == {<<"E", 0, 1>>, <<"E", 0, 2>>}
\* no value, and values no agreement comes from
None == <<"none", 0, 0>>
Weak == <<"weak", 0, 0>>
Badly == <<"bad", 0, 0>>

Idle == [st |-> "nothing"]
Refused == [st |-> "refused"]
Plain == [st |-> "plain"]
Keys(s, p, ids) == [st |-> "keys", t |-> <<{s, p}, ids>>]
\* what an end with secret s makes of the other's value p
Outcome(s, p, ids) == IF p = None THEN Plain ELSE IF p \in {Weak, Badly} THEN Refused ELSE Keys(s, p, ids)

Init == call = 0 /\ over = TRUE /\ bEnd = <<>> /\ bSaw = <<>> /\ aEnd = <<>> /\ aSaw = <<>>

Call == /\ call < MaxCalls
        /\ call' = call + 1 /\ over' = FALSE
        /\ bEnd' = <<>> /\ bSaw' = <<>> /\ aEnd' = <<>> /\ aSaw' = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

OfferValue(how) ==
    CASE how = "own" -> Ours(call) [] how = "old" -> Ours(call - 1)
      [] how = "evil" -> <<"E", 0, 1>> [] how = "evil2" -> <<"E", 0, 2>>
      [] how = "weak" -> Weak [] how \in {"short", "long"} -> Badly [] how = "none" -> None
OfferCan(d, how) == /\ call > 0 /\ d \notin DOMAIN bEnd
                    /\ how # "other" /\ (how = "old" => call > 1)
Offer(d, how, ids) ==
    /\ OfferCan(d, how)
    /\ LET p == OfferValue(how) IN
       /\ bSaw' = Put(bSaw, d, [pub |-> p, ids |-> ids])
       /\ bEnd' = Put(bEnd, d, Outcome(Theirs(call, d), p, ids))
    /\ UNCHANGED <<call, over, aEnd, aSaw>>

Answered(d) == d \in DOMAIN bEnd /\ bEnd[d] # Refused
AnswerValue(d, how) ==
    CASE how = "own" -> Theirs(call, d) [] how = "other" -> Theirs(call, 3 - d) [] how = "old" -> Theirs(call - 1, 1)
      [] how = "evil" -> <<"E", 0, 1>> [] how = "evil2" -> <<"E", 0, 2>>
      [] how = "weak" -> Weak [] how \in {"short", "long"} -> Badly [] how = "none" -> None
AnswerCan(d, how, hadOld) ==
    /\ call > 0 /\ d \notin DOMAIN aEnd
    /\ (how \in {"own", "short", "long"} => Answered(d))
    /\ (how = "other" => Answered(3 - d))
    /\ (how = "old" => call > 1 /\ hadOld)
Answer(d, how, ids, hadOld) ==
    /\ AnswerCan(d, how, hadOld)
    /\ LET p == AnswerValue(d, how) o == IF over THEN Refused ELSE Outcome(Ours(call), p, ids) IN
       /\ aSaw' = Put(aSaw, d, [pub |-> p, ids |-> ids])
       /\ aEnd' = Put(aEnd, d, o)
       /\ over' = (over \/ o = Refused)
    /\ UNCHANGED <<call, bEnd, bSaw>>

-----------------------------------------------------------------------------
HasKeys(e) == e.st = "keys"
\* who was given the other's genuine value, under the same idea of the identities, has the same keys
Agree == \A d \in DOMAIN aEnd \cap DOMAIN bEnd :
    HasKeys(aEnd[d]) /\ HasKeys(bEnd[d]) =>
        ((aEnd[d].t = bEnd[d].t)
            <=> (aSaw[d].pub = Theirs(call, d) /\ bSaw[d].pub = Ours(call) /\ aSaw[d].ids = bSaw[d].ids))
\* no two devices of the callee share keys with each other or the caller's keys for the other
Apart == \A d, e \in DOMAIN bEnd : d # e /\ HasKeys(bEnd[d]) /\ HasKeys(bEnd[e]) => bEnd[d].t # bEnd[e].t
\* one who put no value of its own in place of a genuine one cannot know the keys
Secret == \A d \in DOMAIN aEnd : HasKeys(aEnd[d]) /\ aSaw[d].pub \notin Evil => aEnd[d].t[1] \cap Evil = {}
NoWeak == /\ \A d \in DOMAIN aEnd : aSaw[d].pub \in {Weak, Badly} => aEnd[d] = Refused
          /\ \A d \in DOMAIN bEnd : bSaw[d].pub \in {Weak, Badly} => bEnd[d] = Refused
=============================================================================
