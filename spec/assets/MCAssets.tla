------------------------------ MODULE MCAssets ------------------------------
(* Manifests are built entry by entry, then contents are offered.             *)
EXTENDS Assets, Json
CONSTANTS MaxEntries, MaxSteps, Groups, Versions, Wants, Offers, Sim
VARIABLES phase, hist
mvars == <<vars, phase, hist>>
GenVersions == {<<0, 0, 9>>, <<0, 0, 10>>, <<0, 10, 0>>, <<0, 9, 9>>, <<9, 0, 0>>, <<10, 0, 0>>, <<0, 0, 65535>>, <<>>}
GenWants == {<<1>>, <<1, 2>>, <<2>>, <<2, 1, 1>>, <<>>}
GenOffers == UNION {[1..n -> {1, 2}] : n \in 0..4}
SmallVersions == {<<0, 0, 9>>, <<0, 0, 10>>, <<>>}
SmallWants == {<<1>>, <<1, 2>>}
SmallOffers == UNION {[1..n -> {1, 2}] : n \in 0..2}
MInit == manifest = <<>> /\ registry = <<>> /\ obs = [res |-> "init"] /\ phase = "manifest" /\ hist = <<>>
Entry == [g : Groups, v : Versions, size : {0, 1, 2, 3}, want : Wants, disabled : BOOLEAN]
AddEntry == /\ phase = "manifest" /\ Len(manifest) < MaxEntries
            /\ \E g \in Groups, v \in Versions, w \in Wants, d \in BOOLEAN, k \in {0, 1} :
                 \* sizes that do not fit the content (k = 1), disabled entries and bad versions are rarer
                 /\ (k = 1 => v # <<>>) 
                 /\ manifest' = Append(manifest, [g |-> g, v |-> v, size |-> Len(w) + k, want |-> w, disabled |-> d])
            /\ UNCHANGED <<registry, obs, phase, hist>>
Go == /\ phase = "manifest" /\ manifest # <<>> /\ (Sim => Len(manifest) = MaxEntries) /\ phase' = "run"
      /\ hist' = IF Sim THEN <<[manifest |-> manifest]>> ELSE <<>>
      /\ UNCHANGED vars
Did(i) == hist' = IF Sim THEN Append(hist, i) ELSE Append(hist, 0)
Offer == /\ phase = "run" /\ Len(hist) < MaxSteps
         /\ \E g \in Groups \cup {"nobody"}, c \in Offers, how \in {"content", "file", "missing"} :
              /\ (how # "content" => (Sim \/ Len(c) = 2)) /\ (how = "missing" => c = <<>> \/ ~Sim)
              /\ Add(g, c, how) /\ Did([op |-> "Add", g |-> g, c |-> c, how |-> how])
         /\ UNCHANGED phase
MSpec == MInit /\ [][AddEntry \/ Go \/ Offer]_mvars
View == <<manifest, registry, obs, phase, Len(hist)>>
Emit == ~Sim \/ Len(hist) < MaxSteps \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
