-------------------------------- MODULE Audio --------------------------------
(* The audio devices offered to the application                               *)
(* (webrtc/audio_device_module_utils.rs on Linux).  A device is a record      *)
(* [state, type, id, pref (sequence), name]; positions identify devices.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
MonitorIds == {"b.monitor", "c.monitor", ".monitor"}
IsMonitor(d) == d.type = "input" /\ d.id \in MonitorIds     \* records what is played
Enabled(ds) == SelectSeq([i \in DOMAIN ds |-> i], LAMBDA i : ds[i].state = "enabled")
Selectable(ds) == SelectSeq(Enabled(ds), LAMBDA i : ~IsMonitor(ds[i]))
Prefers(d, p) == \E k \in DOMAIN d.pref : d.pref[k] = p
Default(ds) == LET v == SelectSeq(Enabled(ds), LAMBDA i : Prefers(ds[i], "voice")) IN IF v = <<>> THEN 0 ELSE v[1]
\* entry 0 is the default device (a monitor only if it was made the default), then the choices in order
Count(ds) == IF Selectable(ds) # <<>> THEN Len(Selectable(ds)) + 1 ELSE IF Default(ds) # 0 THEN 1 ELSE 0
At(ds, k) == IF Count(ds) = 0 THEN 0 ELSE IF k = 0 THEN Default(ds) ELSE IF k <= Len(Selectable(ds)) THEN Selectable(ds)[k] ELSE 0
NameAt(ds, k) == LET i == At(ds, k) IN
    IF i = 0 THEN <<>>
    ELSE <<IF k = 0 THEN "default (" \o ds[i].name \o ")" ELSE ds[i].name,
           IF ds[i].id # "" THEN ds[i].id ELSE ds[i].name \o "-" \o ToString(k), "">>
Listing(ds) == [count |-> Count(ds), at |-> [k \in 1..(Len(ds) + 3) |-> At(ds, k - 1)],
                names |-> [k \in 1..Count(ds) |-> NameAt(ds, k - 1)], all |-> Enabled(ds)]

\* a text (bytes) copied into a buffer of the given size: as much as fits before the terminating zero;
\* nothing at all when the text has a zero or would be cut inside a character
Cont(b) == b \in 128..191
Copied(t, size) ==
    LET n == IF Len(t) < size THEN Len(t) ELSE size - 1
        whole == n = Len(t) \/ ~Cont(t[n + 1])
        ok == whole /\ \A i \in 1..n : t[i] # 0
    IN [ok |-> ok, buf |-> [i \in 1..(size + 4) |-> IF ~ok \/ i > n + 1 THEN 170 ELSE IF i = n + 1 THEN 0 ELSE t[i]]]
=============================================================================
