--------------------------- MODULE TraceProtoExt ---------------------------
(* Fragments of a large control message are concatenated in order exactly    *)
(* when the first one announces a fragment count; otherwise nothing changes. *)
(* <<-1>> stands for "no content".                                           *)
EXTENDS TraceKit
VARIABLES l
None == <<-1>>
RECURSIVE Cat(_, _)
Cat(acc, rest) == IF rest = <<>> THEN acc
                  ELSE Cat(IF Head(rest) = None THEN acc ELSE acc \o Head(rest), Tail(rest))
Want(e) == IF e.hdr # 2 THEN e.first ELSE Cat(IF e.first = None THEN <<>> ELSE e.first, e.rest)
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
        CASE e.ev = "Reset" -> TRUE
          [] e.ev = "Panic" -> ReportPanic(l)
          [] e.ev = "Extend" -> LET m == [sfu |-> Want(e), dev |-> Want(e)] d == DiffOf(e.ev, e.obs, m)
                                IN d = {} \/ ReportDiff(l, e.ev, d, m)
TraceSpec == l = 1 /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
