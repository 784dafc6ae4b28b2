------------------------------ MODULE TraceRedBlue -----------------------------
(* A case: d the tree, crit, ev the recorded promotions and merges, M the result. *)
EXTENDS RedBlue, TraceBase
VARIABLES ci, l, verdict
tvars == <<st, red, dep, open, ci, l, verdict>>
C == Batch[ci]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ Begin(Batch[ci].d)
EvVerdict(e) == CASE e.e = "promote" -> (IF e.n = 0 THEN "UnknownNode" ELSE PromoteVerdict(C.d, C.crit, e.n))
   [] e.e = "merge" -> (IF e.n = 0 \/ e.r = 0 THEN "UnknownNode" ELSE MergeEventVerdict(C.d, C.crit, e.r, e.n))
   [] e.e = "end" -> EndVerdict(C.d, C.crit, C.M)
   [] OTHER -> e.e
Step == /\ verdict = "run" /\ l <= Len(C.ev)
        /\ LET e == C.ev[l] v == TLCEval(EvVerdict(e)) IN
           IF v # "ok" THEN verdict' = v /\ Report(ci, l, v) /\ UNCHANGED <<st, red, dep, open, ci, l>>
           ELSE /\ CASE e.e = "promote" -> Promote(C.d, e.n)
                     [] e.e = "merge" -> MergeStep(C.d, e.r, e.n)
                     [] OTHER -> UNCHANGED rvars
                /\ l' = l + 1 /\ UNCHANGED <<ci, verdict>>
Done == verdict = "run" /\ l > Len(C.ev) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<st, red, dep, open, ci, l>>
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
