------------------------------ MODULE TraceBase ------------------------------
(* A batch of recorded cases, one JSON file, validated in one TLC run: the   *)
(* case number is part of the state.  Every case ends with one verdict line. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Batch == JsonDeserialize(IOEnv.TRACE_FILE)
NumCases == Len(Batch)
Report(ci, l, verdict) == PrintT("@V " \o ToString(ci) \o " " \o ToString(l) \o " " \o verdict)
=============================================================================
