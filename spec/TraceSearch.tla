------------------------------ MODULE TraceSearch -----------------------------
(* Recorded searches of one random oracle for counterexamples to a sequence of   *)
(* hypotheses (transition graphs) of one system.  Call: H, after, reset, runs,    *)
(* res [found, shape, start, w], err.                                             *)
EXTENDS Search, TraceBase
VARIABLES ci, l, mem, verdict
tvars == <<ci, l, mem, verdict>>
C == Batch[ci]
Ev == C.calls[l]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ mem = FreshMemory(Batch[ci].o, Batch[ci].p) /\ verdict = "run"
Now == Prepared(C.o, C.p, mem, <<>>, Ev.reset)
Tests == Inputs_(Ev.runs)
Verdict ==
  IF Ev.err # "" THEN Ev.err
  ELSE LET s == SearchVerdict(Ev.H, C.kind, Ev.runs, Ev.res) IN
       IF s # "ok" THEN s
       ELSE IF ~G!SameGraph(Ev.H, Ev.after) THEN "HypothesisChanged"
       ELSE IF LimitVerdict(C.o, C.p, Now, Tests) # "ok" THEN LimitVerdict(C.o, C.p, Now, Tests)
       ELSE IF ~Ev.res.found THEN CoverVerdict(C.o, C.p, Ev.H, Ev.H, <<>>, Tests, l, Now) ELSE "ok"
Find == /\ verdict = "run" /\ l <= Len(C.calls)
        /\ LET v == Verdict IN
           IF v = "ok" THEN l' = l + 1 /\ mem' = Remembered(C.o, C.p, Now, Tests, IF Ev.res.found THEN <<1>> ELSE NoCex) /\ UNCHANGED <<ci, verdict>>
           ELSE verdict' = v /\ UNCHANGED <<ci, l, mem>> /\ Report(ci, l, v)
Done == verdict = "run" /\ l > Len(C.calls) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<ci, l, mem>>
TraceNext == Find \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
