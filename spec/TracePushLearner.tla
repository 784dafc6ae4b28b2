---------------------------- MODULE TracePushLearner ----------------------------
(* Recorded KV runs on visibly pushdown systems.  C.excl: excluded call/return     *)
(* pairs of the alphabet; C.lim round limit, 0 if none.                            *)
EXTENDS PushLearner, TraceBase
VARIABLES ci, l, verdict, classes
tvars == <<conf, lvars, ci, l, verdict, classes>>
C == Batch[ci]
Ev == C.ev[l]
Excl == {C.excl[i] : i \in 1..Len(C.excl)}
TraceInit == /\ ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ Begin(Batch[ci].T) /\ conf = Conf0(Batch[ci].T)
             /\ classes = 0
Keep == UNCHANGED <<ci, conf>>
Fail(v) == verdict' = v /\ UNCHANGED <<lvars, l, classes>> /\ Keep /\ Report(ci, l, v)
IsEvent(e) == verdict = "run" /\ classes > 0 /\ l <= Len(C.ev) /\ Ev.e = e
Consume == l' = l + 1 /\ UNCHANGED <<verdict, classes>> /\ Keep
Count == verdict = "run" /\ classes = 0 /\ classes' = NumClasses(T) /\ UNCHANGED <<lvars, l, verdict>> /\ Keep
THyp == IsEvent("hyp") /\
   LET v == IF C.lim > 0 /\ rounds >= C.lim + 1 THEN "TooManyRounds"
            ELSE LET h == HypVerdict(T, classes, hyp, cex, Ev.m, Excl) IN IF h = "ok" THEN ErrorStateVerdict(Ev.m, Ev.err) ELSE h
   IN IF v # "ok" THEN Fail(v) ELSE Present(Ev.m) /\ Consume
TCex == IsEvent("cex") /\ IF Accepts(hyp, Ev.w) # Accepts(T, Ev.w) THEN CounterExample(Ev.w) /\ Consume ELSE Fail("TeacherError")
TRet == IsEvent("ret") /\
   LET full == C.lim = 0
       r == IF full THEN ResultVerdict(T, classes, Ev.m, Ev.pre) ELSE Shape(Ev.m, {}, FALSE)
       v == IF r # "ok" THEN r
            ELSE IF full /\ phase = "learn" THEN "StoppedWithoutConfirmation"
            ELSE IF Ev.size # Ev.m.n THEN "WrongReportedSize"
            ELSE ErrorStateVerdict(Ev.m, Ev.err)
   IN IF v # "ok" THEN Fail(v)
      ELSE verdict' = "ok" /\ Report(ci, l, "ok") /\ (IF phase = "asked" THEN Confirm ELSE UNCHANGED lvars) /\ UNCHANGED <<l, classes>> /\ Keep
TFail == IsEvent("fail") /\ Fail(Ev.what)
TTrunc == verdict = "run" /\ classes > 0 /\ l > Len(C.ev) /\ Fail("NoReturn")
TraceNext == Count \/ THyp \/ TCex \/ TRet \/ TFail \/ TTrunc
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
