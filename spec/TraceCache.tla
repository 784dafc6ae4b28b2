----------------------------- MODULE TraceCache ------------------------------
(* Validates recorded operations on a caching wrapper.  Event: op, w (word),  *)
(* res (answers), err (an error was raised), exec (outputs the wrapped system  *)
(* produced during the operation), ran (it was executed at all), q,s,c the     *)
(* counters afterwards.  chkcount: counters are compared.                      *)
EXTENDS Cache, TraceBase
VARIABLES ci, l, verdict
tvars == <<cvars, ci, l, verdict>>
C == Batch[ci]
Ev == C.ev[l]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ Start
Fail(v) == verdict' = v /\ UNCHANGED <<cvars, ci, l>> /\ Report(ci, l, v)
Consume == l' = l + 1 /\ UNCHANGED <<ci, verdict>>
IsEvent(op) == verdict = "run" /\ l <= Len(C.ev) /\ Ev.op = op

QueryVerdict ==
  IF Ev.ran # (Ev.w = <<>> \/ ~Known(Ev.w)) THEN (IF Ev.ran THEN "KnownWordExecuted" ELSE "UnknownWordAnswered")
  ELSE IF ~Ev.ran THEN (IF Ev.err THEN "ErrorOnKnownWord" ELSE IF Ev.res # Recall(Ev.w) THEN "WrongCachedAnswer" ELSE "ok")
  ELSE IF Len(Ev.exec) # (IF Ev.w = <<>> THEN 1 ELSE Len(Ev.w)) THEN "WrongExecution"
  ELSE IF Ev.w # <<>> /\ Conflict(Ev.w, Ev.exec) THEN (IF Ev.err THEN "ok" ELSE "ContradictionAbsorbed")
  ELSE IF Ev.err THEN "ErrorWithoutContradiction"
  ELSE IF Ev.res # Ev.exec THEN "WrongAnswer" ELSE "ok"
TQuery == /\ IsEvent("query")
          /\ IF QueryVerdict # "ok" THEN Fail(QueryVerdict)
             ELSE /\ Consume
                  /\ \/ ~Ev.ran /\ QueryCached(Ev.w, Ev.res)
                     \/ Ev.ran /\ ~Ev.err /\ QueryExecuted(Ev.w, Ev.exec, Ev.res)
                     \/ Ev.err /\ QueryContradicted(Ev.w, Ev.exec)
StepVerdict ==
  IF Len(Ev.exec) # 1 THEN "StepNotExecuted"
  ELSE LET w == Append(cur, Ev.w[1]) IN
  IF w \in DOMAIN obs /\ obs[w] # Ev.exec[1] THEN (IF Ev.err THEN "ok" ELSE "ContradictionAbsorbed")
  ELSE IF Ev.err THEN "ErrorWithoutContradiction"
  ELSE IF Ev.res # Ev.exec THEN "WrongAnswer" ELSE "ok"
TStep == /\ IsEvent("step")
         /\ IF StepVerdict # "ok" THEN Fail(StepVerdict)
            ELSE Consume /\ (IF Ev.err THEN StepContradicted(Ev.w[1], Ev.exec[1]) ELSE Step(Ev.w[1], Ev.exec[1], Ev.res[1]))
TPeek == /\ IsEvent("peek")
         /\ IF Ev.err THEN Fail("ErrorWithoutContradiction")
            ELSE IF Ev.res # Ev.exec THEN Fail("WrongAnswer")
            ELSE Consume /\ Peek(Ev.exec[1], Ev.res[1])
TOpen == /\ IsEvent("pre") /\ IF Ev.err THEN Fail("ErrorWithoutContradiction") ELSE Consume /\ Open
TClose == /\ IsEvent("post") /\ IF Ev.err THEN Fail("ErrorWithoutContradiction") ELSE Consume /\ Close
TLoad == /\ IsEvent("preload")
         /\ IF Conflict(Ev.w, Ev.exec) THEN (IF Ev.err THEN Consume /\ PreloadContradicted(Ev.w, Ev.exec) ELSE Fail("ContradictionAbsorbed"))
            ELSE IF Ev.err THEN Fail("ErrorWithoutContradiction") ELSE Consume /\ Preload(Ev.w, Ev.exec)
(* seen from below: the call that supplied the data is the run of the learner *)
TXLoad == /\ IsEvent("xload")
          /\ Consume /\ (IF failed THEN UNCHANGED cvars
                         ELSE IF Conflict(Ev.w, Ev.exec) THEN PreloadContradicted(Ev.w, Ev.exec) ELSE Preload(Ev.w, Ev.exec))
(* Operations seen only from below (the wrapper sits inside a learner): every  *)
(* execution that reaches the system must be one the wrapper may perform, and  *)
(* nothing follows a contradiction but the end of the run with an error.       *)
XVerdict == IF failed THEN "ContinuedAfterContradiction"
            ELSE IF Ev.op = "xquery" /\ Ev.w # <<>> /\ Known(Ev.w) THEN "KnownWordExecuted" ELSE "ok"
TXQuery == /\ IsEvent("xquery")
           /\ IF XVerdict # "ok" THEN Fail(XVerdict)
              ELSE Consume /\ (IF Ev.w # <<>> /\ Conflict(Ev.w, Ev.exec) THEN QueryContradicted(Ev.w, Ev.exec)
                               ELSE QueryExecuted(Ev.w, Ev.exec, Ev.exec))
TXTest == /\ IsEvent("xtest")
          /\ IF XVerdict # "ok" THEN Fail(XVerdict)
             ELSE IF Conflict(SubSeq(Ev.w, 1, Len(Ev.w) - 1), Ev.exec) THEN Fail("ContinuedAfterContradiction")
             ELSE Consume /\ (IF Conflict(Ev.w, Ev.exec) THEN failed' = TRUE /\ UNCHANGED <<obs, cur, nq, ns, nc>>
                              ELSE obs' = Learn(Ev.w, Ev.exec) /\ UNCHANGED <<failed, cur, nq, ns, nc>>)
TEnd == /\ IsEvent("end")
        /\ IF failed /\ ~Ev.err THEN Fail("ContradictionAbsorbed")
           ELSE IF Ev.err /\ ~failed /\ Ev.det THEN Fail("ErrorWithoutContradiction")
           ELSE Consume /\ UNCHANGED cvars
(* the counters are compared one event later, against the state reached *)
CountsOK == IF l = 1 \/ ~C.chkcount \/ failed THEN TRUE
            ELSE LET p == C.ev[l - 1] IN p.q = nq /\ p.s = ns /\ p.c = nc
Done == verdict = "run" /\ l > Len(C.ev) /\ CountsOK /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<cvars, ci, l>>
BadCount == verdict = "run" /\ ~CountsOK /\ Fail("WrongCounters")
TraceNext == (CountsOK /\ (TQuery \/ TStep \/ TPeek \/ TOpen \/ TClose \/ TLoad \/ TXLoad
                           \/ TXQuery \/ TXTest \/ TEnd)) \/ Done \/ BadCount
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Inv == PrefixClosed
=============================================================================
