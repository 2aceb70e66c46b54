------------------------------- MODULE TraceIO ------------------------------
(* Reading recorded traces, and reporting verdicts.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.VERIF_TRACES)

Field(e, f) == f \in DOMAIN e

\* A failing event is reported with the clauses it violates.
Report(t, i, clauses) ==
  PrintT("FAIL|" \o ToString(t) \o "|" \o ToString(i) \o "|" \o ToString(clauses))
Finished(t) == PrintT("DONE|" \o ToString(t))
Opened(t, i) == PrintT("OPEN|" \o ToString(t) \o "|" \o ToString(i))
Used(what) == PrintT("USED|" \o what)

\* Names of the clauses that do not hold; clauses is a set of <<name, holds>>
Broken(clauses) == { c[1] : c \in { d \in clauses : ~d[2] } }
=============================================================================
