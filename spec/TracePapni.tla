------------------------------ MODULE TracePapni ------------------------------
EXTENDS Papni, TraceBase

VARIABLES ci, l, verdict
tvars == <<conf, ci, l, verdict>>
C == Batch[ci]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ conf = <<>>
Call == /\ verdict = "run" /\ l <= Len(C.calls)
        /\ LET c == C.calls[l]
               v == IF c.err # "" THEN c.err ELSE PapniVerdict(c) IN
           IF v = "ok" THEN l' = l + 1 /\ UNCHANGED <<conf, ci, verdict>>
           ELSE verdict' = v /\ UNCHANGED <<conf, ci, l>> /\ Report(ci, l, v)
Done == verdict = "run" /\ l > Len(C.calls) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<conf, ci, l>>
TraceNext == Call \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
