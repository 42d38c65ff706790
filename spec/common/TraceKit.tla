------------------------------ MODULE TraceKit ------------------------------
(* Shared by all trace specifications.                                       *)
(* IOEnv.TRACE   ndjson file, one recorded event per line                    *)
(* IOEnv.FIELDS  json file: event name -> observed fields that the property  *)
(*               under check is about ("*": all events not listed)           *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Fields == JsonDeserialize(IOEnv.FIELDS)
\* operators without parameters are evaluated once
FieldsOf == [n \in DOMAIN Fields |-> ToSet(Fields[n])]
Relevant(ev) == IF ev \in DOMAIN FieldsOf THEN FieldsOf[ev] ELSE FieldsOf["*"]

\* fields of the recorded observation that differ from the model's
DiffOf(ev, logged, model) ==
    {f \in DOMAIN logged \cap Relevant(ev) : f \notin DOMAIN model \/ model[f] # logged[f]}

ReportDiff(l, ev, fields, model) ==
    PrintT("MISMATCH " \o ToJson([line |-> l, ev |-> ev, fields |-> fields, want |-> model]))
ReportPanic(l) ==
    PrintT("MISMATCH " \o ToJson([line |-> l, ev |-> "Panic", fields |-> {"panic"}, want |-> "no panic"]))
=============================================================================
