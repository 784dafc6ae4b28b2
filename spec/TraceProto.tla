------------------------------ MODULE TraceProto -----------------------------
(* Recorded interaction with a system.  Events: pre, steps(n), post, tests(c,n) *)
(* (c consecutive well-formed tests), eqb/eqe(q,s) (begin and end of a search  *)
(* for a counterexample, with the oracle's counters afterwards),               *)
(* cnt(q,s): the counters of the system wrapper after learning queries,        *)
(* ret(ql,sl,qe,se): reported learning information, fail(what).                *)
EXTENDS SulProto, TraceBase
VARIABLES ci, l, verdict
tvars == <<pvars, ci, l, verdict>>
C == Batch[ci]
Ev == C.ev[l]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ PInit
Fail(v) == verdict' = v /\ UNCHANGED <<pvars, ci, l>> /\ Report(ci, l, v)
Consume == l' = l + 1 /\ UNCHANGED <<ci, verdict>>
IsEvent(e) == verdict = "run" /\ l <= Len(C.ev) /\ Ev.e = e
TPre == IsEvent("pre") /\ IF open THEN Fail("TestNotEnded") ELSE Consume /\ OpenTest
TSteps == IsEvent("steps") /\ IF ~open THEN Fail("StepOutsideTest") ELSE Consume /\ StepN(Ev.n)
TPost == IsEvent("post") /\ Consume /\ CloseTest
TTests == IsEvent("tests") /\ IF open THEN Fail("TestNotEnded") ELSE Consume /\ WholeTests(Ev.c, Ev.n)
TBeginEq == IsEvent("eqb") /\ Consume /\ BeginEq
TEndEq == IsEvent("eqe") /\ IF Ev.q # tests["eq"] THEN Fail("WrongOracleQueryCount")
                            ELSE IF Ev.s # steps["eq"] THEN Fail("WrongOracleStepCount")
                            ELSE Consume /\ EndEq
TCount == IsEvent("cnt") /\ IF Ev.q # tests["learn"] THEN Fail("WrongSystemQueryCount")
                            ELSE IF Ev.s # steps["learn"] THEN Fail("WrongSystemStepCount")
                            ELSE Consume /\ UNCHANGED pvars
TRet == IsEvent("ret") /\ IF Ev.ql # tests["learn"] THEN Fail("WrongQueriesLearning")
                          ELSE IF Ev.sl # steps["learn"] THEN Fail("WrongStepsLearning")
                          ELSE IF Ev.qe # tests["eq"] THEN Fail("WrongQueriesEq")
                          ELSE IF Ev.se # steps["eq"] THEN Fail("WrongStepsEq")
                          ELSE Consume /\ UNCHANGED pvars
TFail == IsEvent("fail") /\ Fail(Ev.what)
Done == verdict = "run" /\ l > Len(C.ev) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<pvars, ci, l>>
TraceNext == TPre \/ TSteps \/ TPost \/ TTests \/ TBeginEq \/ TEndEq \/ TCount \/ TRet \/ TFail \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Inv == StepsNeedTests
=============================================================================
