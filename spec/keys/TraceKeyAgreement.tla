-------------------------- MODULE TraceKeyAgreement --------------------------
(* An ideal key derivation: equal symbolic terms are equal bytes, different  *)
(* terms different bytes.  table: what is known about which bytes are which. *)
EXTENDS KeyAgreement, TraceKit
VARIABLES l, bad, table, hadOld
tvars == <<vars, l, bad, table, hadOld>>

Dirs(t) == [offer |-> [key |-> <<t, "offer", "key">>, salt |-> <<t, "offer", "salt">>],
            answer |-> [key |-> <<t, "answer", "key">>, salt |-> <<t, "answer", "salt">>]]
\* the terms behind the recorded numbers
Known(o, end, sends, recvs) ==
    IF end.st # "keys" \/ o.st # "keys" THEN {}
    ELSE {<<Dirs(end.t)[sends].key, o.send[1]>>, <<Dirs(end.t)[sends].salt, o.send[2]>>,
          <<Dirs(end.t)[recvs].key, o.recv[1]>>, <<Dirs(end.t)[recvs].salt, o.recv[2]>>}
PubTerm(s) == <<<<{s}, <<"", "">>>>, "pub", "pub">>
OneToOne(t) == \A x, y \in t : (x[1] = y[1]) <=> (x[2] = y[2])
Want(end, sends, recvs) ==
    IF end.st = "keys" THEN [st |-> "keys", size |-> <<32, 12, 32, 12>>, gcm |-> TRUE, desc |-> <<<<"recv", recvs>>, <<"send", sends>>>>]
    ELSE [st |-> end.st]
Diff(o, end, sends, recvs, new) ==
    LET w == Want(end, sends, recvs) IN
    {f \in DOMAIN w : f \notin DOMAIN o \/ o[f] # w[f]} \cup (IF OneToOne(new) THEN {} ELSE {"keys"})

TraceInit == l = 1 /\ bad = FALSE /\ table = {} /\ hadOld = FALSE /\ Init
Step(e) ==
    CASE e.ev = "Call" -> Call /\ hadOld' = Answered(1) /\ table' = table \cup {<<PubTerm(Ours(call')), e.obs.pub>>}
      [] e.ev = "Offer" -> /\ Offer(e.d, e.how, e.ids) /\ UNCHANGED hadOld
                           /\ table' = table \cup Known(e.obs, bEnd'[e.d], "answer", "offer")
                                        \cup (IF e.obs.answered THEN {<<PubTerm(Theirs(call, e.d)), e.obs.pub>>} ELSE {})
      [] e.ev = "Answer" -> /\ Answer(e.d, e.how, e.ids, hadOld) /\ UNCHANGED hadOld
                            /\ table' = table \cup Known(e.obs, aEnd'[e.d], "offer", "answer")
      [] OTHER -> FALSE /\ UNCHANGED <<vars, table, hadOld>>
Found(e) ==
    CASE e.ev = "Call" -> IF OneToOne(table') /\ e.obs.len = 32 THEN {} ELSE {"pub"}
      [] e.ev = "Offer" -> Diff(e.obs, bEnd'[e.d], "answer", "offer", table')
                            \cup (IF e.obs.answered = (bEnd'[e.d] # Refused) THEN {} ELSE {"answered"})
      [] e.ev = "Answer" -> Diff(e.obs, aEnd'[e.d], "offer", "answer", table')
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
        IF e.ev = "Reset" THEN /\ call' = 0 /\ over' = TRUE /\ bEnd' = <<>> /\ bSaw' = <<>> /\ aEnd' = <<>> /\ aSaw' = <<>>
                               /\ bad' = FALSE /\ table' = {} /\ hadOld' = FALSE
        ELSE IF bad THEN UNCHANGED <<vars, bad, table, hadOld>>
        ELSE IF e.ev = "Panic" THEN ReportPanic(l) /\ bad' = TRUE /\ UNCHANGED <<vars, table, hadOld>>
        ELSE /\ Step(e)
             /\ IF Found(e) = {} THEN bad' = FALSE
                ELSE ReportDiff(l, e.ev, Found(e), [bEnd |-> bEnd', aEnd |-> aEnd']) /\ bad' = TRUE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
