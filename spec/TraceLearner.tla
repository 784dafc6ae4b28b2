----------------------------- MODULE TraceLearner -----------------------------
(* Validates recorded learning runs of the real code against Learner.        *)
(* Case: T target; ev events:                                                *)
(*   hyp(m, pre, obs)  hypothesis handed to the equivalence oracle, obs the  *)
(*                     words executed on the system since the last event     *)
(*   cex(w)            counterexample returned to the learner                *)
(*   ret(m, pre, ..)   value returned by the learning function               *)
(*   fail(what)        exception, non-termination, crash                     *)
(* Flags: chkhyp check hypotheses, chkret check the result, chkobs the        *)
(* hypothesis must explain all observations, lim round limit (0 none),       *)
(* chkrounds the reported number of rounds is the number of presentations.   *)
EXTENDS Learner, TraceBase
VARIABLES ci, l, verdict
tvars == <<lvars, ci, l, verdict>>
C == Batch[ci]
Ev == C.ev[l]
TraceInit == /\ ci \in 1..NumCases /\ l = 1 /\ verdict = "run"
             /\ Begin(Batch[ci].T)

ExplainsAll(H) == \A j \in 1..l : C.ev[j].e = "hyp" =>
    \A q \in 1..Len(C.ev[j].obs) : Answer(H, H.init, C.ev[j].obs[q].w) = C.ev[j].obs[q].o

(* system states the recorded access sequences lead to (0 where there is none) *)
AccOf(pre, n) == [q \in 1..n |-> IF q <= Len(pre) /\ \A i \in 1..Len(pre[q]) : pre[q][i] \in Inputs(T)
                                 THEN After(T, T.init, pre[q]) ELSE 0]
EvAcc == IF C.chkacc THEN AccOf(Ev.pre, Ev.m.n) ELSE <<>>
Fail(v) == verdict' = v /\ UNCHANGED <<lvars, ci, l>> /\ Report(ci, l, v)
Consume == l' = l + 1 /\ verdict' = verdict /\ ci' = ci
IsEvent(e) == verdict = "run" /\ l <= Len(C.ev) /\ Ev.e = e

TracePresent ==
  /\ IsEvent("hyp")
  /\ LET v == IF ~C.chkhyp THEN "ok"
              ELSE IF C.lim > 0 /\ rounds + 1 > C.lim + C.limslack THEN "TooManyRounds"
              ELSE LET h == HypVerdict(T, hyp, cex, Ev.m, EvAcc)
                   IN IF h # "ok" THEN h
                      ELSE IF C.chkobs /\ ~ExplainsAll(Ev.m) THEN "ObservationNotExplained" ELSE "ok"
     IN IF v # "ok" THEN Fail(v)
        ELSE /\ Consume
             /\ IF C.chkhyp THEN Present(Ev.m, EvAcc)
                ELSE /\ hyp' = Ev.m /\ phase' = "asked" /\ rounds' = rounds + 1 /\ UNCHANGED <<T, cex>>

TraceCex ==
  /\ IsEvent("cex")
  /\ IF GenuineCex(T, hyp, Ev.w) THEN CounterExample(Ev.w) /\ Consume ELSE Fail("TeacherError")

TraceReturn ==
  /\ IsEvent("ret")
  /\ LET limited == C.lim > 0
         v == IF C.chkret /\ ~limited THEN ResultVerdict(T, Ev.m, Ev.pre)
              ELSE IF limited /\ ShapeVerdict(Ev.m) # "ok" THEN ShapeVerdict(Ev.m)
              ELSE IF limited /\ C.retlast /\ Ev.m # hyp THEN "NotTheLastHypothesis"
              ELSE IF limited /\ Ev.m.n > MinSize(T) THEN "MoreStatesThanMinimal"
              ELSE "ok"
         w == IF v # "ok" THEN v
              ELSE IF C.chkinfo /\ Ev.size # Ev.m.n THEN "WrongReportedSize"
              ELSE IF C.chkinfo /\ C.chkrounds /\ Ev.rounds # rounds THEN "WrongReportedRounds"
              ELSE IF phase = "learn" /\ ~limited THEN "StoppedWithoutConfirmation"
              ELSE "ok"
     IN IF w # "ok" THEN Fail(w)
        ELSE /\ verdict' = "ok" /\ Report(ci, l, "ok")
             /\ (IF phase = "asked" /\ Equiv(hyp, T) THEN Confirm ELSE UNCHANGED lvars)
             /\ UNCHANGED <<ci, l>>
TraceFail == IsEvent("fail") /\ Fail(Ev.what)
TraceTruncated == verdict = "run" /\ l > Len(C.ev) /\ Fail("NoReturn")
TraceNext == TracePresent \/ TraceCex \/ TraceReturn \/ TraceFail \/ TraceTruncated
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
