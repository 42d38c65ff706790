------------------------------- MODULE Assets -------------------------------
(* core/assets.rs and common/versioning.rs: verification against a manifest   *)
(* and the registry of verified assets.  A byte string is a sequence; the     *)
(* hash is collision free, so a manifest entry is written with the content    *)
(* whose hash it lists.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES manifest,  \* Seq of [g, v: version (malformed: <<>>), size, want, disabled]
          registry,  \* group -> set of [v, content]
          obs
vars == <<manifest, registry, obs>>

\* numeric, component by component
Less(a, b) == \E i \in 1..3 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Listed(S) == SetToSortSeq({x.v : x \in S}, Less)
Options(reg) == [g \in DOMAIN reg |-> Listed(reg[g])]
Contents(reg) == [g \in DOMAIN reg |-> [i \in 1..Cardinality(reg[g]) |->
                     (CHOOSE x \in reg[g] : x.v = Listed(reg[g])[i]).content]]

Matches(e, c) == Len(c) >= e.size /\ SubSeq(c, 1, e.size) = e.want
EntriesOf(g) == SelectSeq(manifest, LAMBDA e : e.g = g)
\* the first manifest entry of the group that the content satisfies decides
Verdict(g, c) ==
    LET es == EntriesOf(g)
        ok == {i \in DOMAIN es : Matches(es[i], c)}
    IN IF ok = {} THEN [res |-> "InvalidAssetPayload"]
       ELSE LET e == es[CHOOSE i \in ok : \A j \in ok : i <= j] IN
            IF e.disabled THEN [res |-> "DisabledAsset"]
            ELSE IF e.v = <<>> THEN [res |-> "InvalidAssetMetadata"]
            ELSE IF g \in DOMAIN registry /\ \E x \in registry[g] : x.v = e.v THEN [res |-> "AssetAlreadyRegistered", v |-> e.v]
            ELSE [res |-> "ok", v |-> e.v, content |-> e.want]

Show(reg, res) == [res |-> res, opts |-> Options(reg), contents |-> Contents(reg)]
\* how: "content", "file", "missing" (a file that cannot be read)
Add(g, c, how) ==
    /\ UNCHANGED manifest
    /\ IF EntriesOf(g) = <<>> THEN registry' = registry /\ obs' = Show(registry, "UnsupportedAsset")
       ELSE IF how = "missing" THEN registry' = registry /\ obs' = Show(registry, "FailedToReadAssetFile")
       ELSE LET r == Verdict(g, c) IN
            /\ registry' = IF r.res # "ok" THEN registry
                           ELSE LET old == IF g \in DOMAIN registry THEN registry[g] ELSE {} IN
                                (g :> (old \cup {[v |-> r.v, content |-> r.content]})) @@ registry
            /\ obs' = Show(registry', r.res)
Get(g, v) ==
    /\ UNCHANGED <<manifest, registry>>
    /\ obs' = [asset |-> IF g \in DOMAIN registry /\ \E x \in registry[g] : x.v = v
                         THEN <<(CHOOSE x \in registry[g] : x.v = v).content>> ELSE <<>>]
Start(m) == manifest' = m /\ registry' = <<>> /\ obs' = [res |-> "init"]

\* ---- properties
OnlyVerified == \A g \in DOMAIN registry : \A x \in registry[g] :
    \E i \in DOMAIN manifest : LET e == manifest[i] IN
        e.g = g /\ ~e.disabled /\ e.v = x.v /\ e.want = x.content /\ Len(x.content) = e.size
OncePerVersion == \A g \in DOMAIN registry : \A x, y \in registry[g] : x.v = y.v => x = y
InOrder == \A g \in DOMAIN registry : LET o == Options(registry)[g] IN
    /\ Len(o) = Cardinality(registry[g])
    /\ \A i \in 1..(Len(o) - 1) : Less(o[i], o[i + 1])
RefusedNoEffect == [][("res" \in DOMAIN obs' /\ obs'.res # "ok") => registry' = registry]_vars
OneGroupOnly == [][Cardinality({g \in DOMAIN registry' : g \notin DOMAIN registry \/ registry'[g] # registry[g]}) <= 1]_vars
Grows == [][\A g \in DOMAIN registry : g \in DOMAIN registry' /\ registry[g] \subseteq registry'[g]]_vars
=============================================================================
