----------------------------- MODULE TraceBase16 -----------------------------
EXTENDS Base16, TraceKit
VARIABLES l, bad, sealed, rooms
tvars == <<l, bad, sealed, rooms>>
\* an event is a question to the code and its answer; sealed: sealed names made so far in this episode;
\* rooms: <<random part, room>> seen so far
Answer(e) ==
    CASE e.ev = "Parse" -> [v |-> Parse(e.text, e.chunks)]
      [] e.ev = "Format" -> [text |-> Format(e.bytes, e.chunks)]
      [] e.ev = "KeyText" -> LET k == FromText(e.text) IN
            IF k = NoKey THEN [v |-> 9] ELSE [v |-> k.v, bytes |-> k.b, usable |-> Usable(k), text |-> ToText(k)]
      [] e.ev = "KeyBytes" -> LET k == FromBytes(e.bytes) IN
            IF k = NoKey THEN [v |-> 9] ELSE [v |-> k.v, bytes |-> k.b, usable |-> Usable(k), text |-> ToText(k)]
      [] e.ev = "Fresh" -> LET k == FromBytes(e.obs.bytes) IN    \* a generated key is a version 1 key the server has to complete
            [v |-> k.v, bytes |-> k.b, usable |-> FALSE, text |-> ToText(k), v1 |-> k.v = 1]
      [] e.ev = "Seal" -> [length |-> 16 + 32 * ((Len(e.name) + 13 + 31) \div 32), fresh |-> TRUE]
      [] e.ev = "Unseal" -> LET s == sealed[e.k] IN
            IF e.alter = "none" /\ SealedUnder(FromBytes(e.key)) = s.under THEN [name |-> <<s.name>>] ELSE [name |-> <<>>]
      [] e.ev = "Room" -> LET r == SubSeq(e.key, 1, 16) IN  \* one room for one random part
            [stable |-> \A p \in rooms : (p[1] = r) = (p[2] = e.obs.room), length |-> 64]
      [] e.ev = "Complete" -> LET k == FromBytes(e.key) IN   \* the server's answer to a creation
            IF Usable(k) THEN [v |-> 8, bytes |-> <<>>]
            ELSE IF e.epoch = <<>> THEN [v |-> 0, bytes |-> SubSeq(k.b, 1, 16)]
            ELSE [v |-> 1, bytes |-> SubSeq(k.b, 1, 16) \o <<1>> \o e.epoch]
TraceInit == l = 1 /\ bad = FALSE /\ sealed = <<>> /\ rooms = {}
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN bad' = FALSE /\ sealed' = <<>> /\ rooms' = {}
        ELSE IF bad THEN UNCHANGED <<bad, sealed, rooms>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED <<sealed, rooms>>
        ELSE LET want == Answer(e) d == DiffOf(e.ev, IF e.ev = "Room" THEN [stable |-> TRUE, length |-> e.obs.length] ELSE e.obs, want) \cup (IF e.ev = "Room" THEN {} ELSE DOMAIN want \ DOMAIN e.obs) IN
             /\ IF d # {} THEN ReportDiff(l, e.ev, d, want) /\ bad' = TRUE ELSE bad' = FALSE
             /\ sealed' = IF e.ev = "Seal" THEN Append(sealed, [under |-> SealedUnder(FromBytes(e.key)), name |-> e.name]) ELSE sealed
             /\ rooms' = IF e.ev = "Room" THEN rooms \cup {<<SubSeq(e.key, 1, 16), e.obs.room>>} ELSE rooms
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
