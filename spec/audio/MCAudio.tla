------------------------------- MODULE MCAudio -------------------------------
EXTENDS Audio, Json
CONSTANTS MaxDevices, Ids, States, Prefs
PrefOf(p) == CASE p = "none" -> <<>> [] p = "both" -> <<"voice", "multimedia">> [] OTHER -> <<p>>
VARIABLE ds
Init == ds = <<>>
Next == /\ Len(ds) < MaxDevices
        /\ \E s \in States, t \in {"input", "output"}, i \in Ids, p \in Prefs :
             ds' = Append(ds, [state |-> s, type |-> t, id |-> i, pref |-> PrefOf(p), name |-> "Dev"])
Spec == Init /\ [][Next]_ds
Emit == PrintT("SCRIPT " \o ToJson(ds))
\* every index below the count is answered, except that there may be no default; none above is
Consistent == /\ \A k \in 0..10 : At(ds, k) # 0 => k < Count(ds)
              /\ \A k \in 1..(Count(ds) - 1) : At(ds, k) # 0
              /\ \A j, k \in 1..(Count(ds) - 1) : j < k => At(ds, j) < At(ds, k)
              /\ \A k \in 1..(Count(ds) - 1) : ~IsMonitor(ds[At(ds, k)]) /\ ds[At(ds, k)].state = "enabled"
              /\ Count(ds) = 1 => At(ds, 0) # 0
ASSUME \A t \in UNION {[1..n -> {0, 97, 195, 169}] : n \in 0..5}, size \in 1..5 :
         LET c == Copied(t, size) IN /\ \A i \in (size + 1)..(size + 4) : c.buf[i] = 170
                                     /\ c.ok => \E i \in 1..size : c.buf[i] = 0
=============================================================================
