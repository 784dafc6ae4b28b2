------------------------------- MODULE TraceAlgo ------------------------------
(* Recorded calls of the functions of Algo: one case is a sequence of calls.     *)
EXTENDS Algo, TraceBase
VARIABLES ci, l, verdict
tvars == <<ci, l, verdict>>
C == Batch[ci]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run"
Call == /\ verdict = "run" /\ l <= Len(C.calls)
        /\ LET v == AlgoVerdict(C.calls[l]) IN
           IF v = "ok" THEN l' = l + 1 /\ UNCHANGED <<ci, verdict>>
           ELSE verdict' = v /\ UNCHANGED <<ci, l>> /\ Report(ci, l, v)
Done == verdict = "run" /\ l > Len(C.calls) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<ci, l>>
TraceNext == Call \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
