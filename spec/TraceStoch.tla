------------------------------ MODULE TraceStoch ------------------------------
(* Recorded runs of the stochastic learner.  Case: g the system, mdp, st test,  *)
(* nc, sep; ev: hyp(m, runs) model given to the equivalence oracle and the runs  *)
(* made before, ret(m, last, runs, info) returned model (last: the object that   *)
(* was presented last), fail(what).                                             *)
EXTENDS StochLearner, TraceBase
VARIABLES ci, l, verdict
tvars == <<slvars, ci, l, verdict>>
C == Batch[ci]
Ev == C.ev[l]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ Begin(Batch[ci].g)
Fail(v) == verdict' = v /\ UNCHANGED <<slvars, ci, l>> /\ Report(ci, l, v)
IsEvent(e) == verdict = "run" /\ l <= Len(C.ev) /\ Ev.e = e
TraceHyp == /\ IsEvent("hyp")
            /\ LET v == PresentVerdict(sys, Ev.runs, Ev.m, C)
               IN IF v # "ok" THEN Fail(v)
                  ELSE /\ model' = <<Ev.m>> /\ runs' = <<>> /\ phase' = "sample" /\ l' = l + 1 /\ UNCHANGED <<sys, ci, verdict>>
TraceRet == /\ IsEvent("ret")
            /\ LET v == IF Ev.last THEN (IF model # <<Ev.m>> THEN "NotTheLastModel" ELSE "ok") ELSE ReturnVerdict(sys, Ev.runs, Ev.m, C)
                   w == IF v # "ok" THEN v ELSE InfoVerdict(Ev.info)
               IN IF w # "ok" THEN Fail(w)
                  ELSE verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<slvars, ci, l>>
TraceFail == IsEvent("fail") /\ Fail(Ev.what)
TraceNext == TraceHyp \/ TraceRet \/ TraceFail
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
