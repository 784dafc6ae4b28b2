------------------------------ MODULE TraceAdapter -----------------------------
(* Recorded use of an adapter: C.obj, C.ev.                                      *)
EXTENDS Adapter, TraceBase
VARIABLES ci, l, verdict
tvars == <<w, S, runs, ci, l, verdict>>
C == Batch[ci]
E == C.ev[l]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ AInit(Batch[ci].obj)
EvVerdict(o, e) ==
  CASE e.op = "pre" -> "ok"
    [] e.op = "post" -> "ok"
    [] e.op = "step" -> IF Possible(o, S, w, e.a, e.out) THEN "ok" ELSE "WrongOutput"
    [] e.op = "query" -> IF e.w = <<>> THEN (IF Len(e.outs) # 1 THEN "WrongLength" ELSE IF Possible(o, Fresh(o), <<>>, 0, e.outs[1]) THEN "ok" ELSE "WrongEmptyAnswer")
                         ELSE IF Len(e.outs) # Len(e.w) THEN "WrongLength"
                         ELSE IF RunOk(o, Fresh(o), <<>>, e.w, e.outs) THEN "ok" ELSE "WrongAnswer"
    [] e.op = "io" -> IF Len(e.outs) # Len(e.w) \/ e.ins # e.w THEN "WrongLength" ELSE IF RunOk(o, Fresh(o), <<>>, e.w, e.outs) THEN "ok" ELSE "WrongAnswer"
    [] e.op = "freq" -> IF e.n = Freq(Pairs(e.w, e.outs)) THEN "ok" ELSE "ObservationsNotKept"
    [] OTHER -> e.op
Step == /\ verdict = "run" /\ l <= Len(C.ev)
        /\ LET v == TLCEval(EvVerdict(C.obj, E)) IN
           IF v # "ok" THEN verdict' = v /\ Report(ci, l, v) /\ UNCHANGED <<avars, ci, l>>
           ELSE /\ CASE E.op = "pre" -> Pre(C.obj)
                     [] E.op = "step" -> StepA(C.obj, E.a, E.out)
                     [] E.op \in {"query", "io"} -> Query(C.obj, E.w, E.outs)
                     [] OTHER -> UNCHANGED avars
                /\ l' = l + 1 /\ UNCHANGED <<ci, verdict>>
Done == verdict = "run" /\ l > Len(C.ev) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<avars, ci, l>>
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
