----------------------------- MODULE TraceOracle -----------------------------
(* Recorded searches of one oracle for counterexamples to a sequence of        *)
(* hypotheses of the same system.  Call: H, after (H afterwards), pre, post     *)
(* (prefixes before and after), reset (counters reset before), tests,           *)
(* res ([0] none), err.                                                         *)
EXTENDS Oracle, TraceBase
VARIABLES ci, l, mem, verdict
tvars == <<ci, l, mem, verdict>>
C == Batch[ci]
Ev == C.calls[l]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ mem = FreshMemory(Batch[ci].o, Batch[ci].p) /\ verdict = "run"
Now == Prepared(C.o, C.p, mem, Ev.pre, Ev.reset)
Verdict ==
  IF Ev.err # "" THEN Ev.err
  ELSE LET s == IF C.sound THEN SoundVerdict(Ev.H, C.T, Ev.tests, Ev.res) ELSE "ok"
       IN IF s # "ok" THEN s
          ELSE IF C.sound /\ (Ev.after # Ev.H \/ Ev.post # Ev.pre) THEN "HypothesisChanged"
          ELSE IF ~C.cover THEN "ok"
          ELSE IF CompleteVerdict(C.o, C.p, Ev.H, C.T, Ev.res) # "ok" THEN CompleteVerdict(C.o, C.p, Ev.H, C.T, Ev.res)
          ELSE IF LimitVerdict(C.o, C.p, Now, Ev.tests) # "ok" THEN LimitVerdict(C.o, C.p, Now, Ev.tests)
          ELSE IF Ev.res = NoCex THEN CoverVerdict(C.o, C.p, Ev.H, C.T, Ev.pre, Ev.tests, l, Now) ELSE "ok"
Search == /\ verdict = "run" /\ l <= Len(C.calls)
          /\ LET v == Verdict IN
             IF v = "ok" THEN l' = l + 1 /\ mem' = (IF C.cover THEN Remembered(C.o, C.p, Now, Ev.tests, Ev.res) ELSE mem) /\ UNCHANGED <<ci, verdict>>
             ELSE verdict' = v /\ UNCHANGED <<ci, l, mem>> /\ Report(ci, l, v)
Done == verdict = "run" /\ l > Len(C.calls) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<ci, l, mem>>
TraceNext == Search \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
