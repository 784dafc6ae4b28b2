------------------------------ MODULE TraceCalls ------------------------------
(* Recorded calls, each judged on its own: a case is a sequence of calls and    *)
(* Judge names the first clause a call breaks ("ok" if none).                   *)
EXTENDS TraceBase
CONSTANT Judge(_)
VARIABLES ci, l, verdict
tvars == <<ci, l, verdict>>
C == Batch[ci]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run"
Verdict(c) == IF c.err # "" THEN c.err ELSE Judge(c)
Call == /\ verdict = "run" /\ l <= Len(C.calls)
        /\ LET v == Verdict(C.calls[l]) IN
           IF v = "ok" THEN l' = l + 1 /\ UNCHANGED <<ci, verdict>>
           ELSE verdict' = v /\ UNCHANGED <<ci, l>> /\ Report(ci, l, v)
Done == verdict = "run" /\ l > Len(C.calls) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<ci, l>>
TraceNext == Call \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
