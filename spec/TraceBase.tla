------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded behaviours.  A trace is a record [id, ev, ..]; every     *)
(* event has k (kind), ok (the call returned) and exc (what it raised).      *)
(* Trace specs keep tid (which trace), l (next event) and verdict (the set   *)
(* of clause names the rejected event failed; {} while all is well).         *)
(* A rejection is printed as a REJECT tuple and stops that trace only.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

\* {name} if the clause fails
Fail(name, holds) == IF holds THEN {} ELSE {name}

Report(id, l, k, fails) == PrintT("REJECT|" \o id \o "|" \o ToString(l) \o "|" \o k \o "|" \o ToString(fails))
=============================================================================
