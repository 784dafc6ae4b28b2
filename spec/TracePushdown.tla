---------------------------- MODULE TracePushdown ----------------------------
(* Recorded operations on VPAs and 1-SEVPAs.  C.g is the structure of the model; *)
(* ev.cur is its control state afterwards (0: not one of its states, -1: it says it is stuck).            *)
EXTENDS Pushdown, TraceBase
VARIABLES ci, l, verdict
tvars == <<conf, ci, l, verdict>>
C == Batch[ci]
Ev == C.ev[l]
G == C.g
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = (IF TablesMatch(Batch[ci].g) THEN "run" ELSE "start") /\ conf = Conf0(Batch[ci].g)
Fail(v) == verdict' = v /\ UNCHANGED <<conf, ci, l>> /\ Report(ci, l, v)
Consume == l' = l + 1 /\ UNCHANGED <<ci, verdict>>
IsEvent(e) == verdict = "run" /\ l <= Len(C.ev) /\ Ev.op = e
TReset == IsEvent("reset") /\ IF Ev.cur # G.init THEN Fail("ResetNotInitial") ELSE Consume /\ PReset(G)
StepV(c2) == IF Ev.err THEN "StepFailed"
             ELSE IF Ev.out /\ ~Accepting(G, c2) THEN "AcceptedWrongly"
             ELSE IF ~Ev.out /\ Accepting(G, c2) THEN "RejectedWrongly"
             ELSE IF c2.s # Dead /\ Ev.cur # -1 /\ Ev.cur # c2.s THEN "WrongState" ELSE "ok"
TStep == IsEvent("step") /\
   LET c2 == IF Ev.a = 0 THEN conf ELSE PMove(G, conf, Ev.a)
   IN IF StepV(c2) # "ok" THEN Fail(StepV(c2))
      ELSE Consume /\ IF Ev.a = 0 THEN PIdle(G, Ev.out) ELSE PStep(G, Ev.a, Ev.out)
(* a whole word from the start: outputs after each letter (for the empty word the  *)
(* acceptance of the initial configuration)                                       *)
RECURSIVE Outs(_, _)
Outs(c, w) == IF w = <<>> THEN <<>> ELSE LET d == PMove(G, c, Head(w)) IN <<Accepting(G, d)>> \o Outs(d, Tail(w))
Expect(w) == IF w = <<>> THEN <<Accepting(G, Conf0(G))>> ELSE Outs(Conf0(G), w)
TQuery == IsEvent("query") /\
   IF Ev.err THEN Fail("QueryFailed")
   ELSE IF Ev.outs # Expect(Ev.w) THEN Fail("WrongAnswer") ELSE Consume /\ conf' = PRun(G, Conf0(G), Ev.w)
(* executing a sequence on a 1-SEVPA *)
TExec == IsEvent("exec") /\
   IF Ev.err THEN Fail("ExecFailed")
   ELSE IF Ev.outs # Outs(Conf0(G), Ev.w) THEN Fail("ExecWrongOutputs") ELSE Consume /\ conf' = PRun(G, Conf0(G), Ev.w)
(* words the model offers as accepted *)
TWords == IsEvent("words") /\
   IF Ev.err THEN (IF Ev.must THEN Fail("GenerationFailed") ELSE Consume /\ conf' = Conf0(G))
   ELSE IF \E i \in 1..Len(Ev.ws) : ~Accepts(G, Ev.ws[i]) THEN Fail("OfferedWordRejected")
   ELSE IF \E i \in 1..Len(Ev.ws) : Len(Ev.ws[i]) < Ev.min \/ Len(Ev.ws[i]) > Ev.max THEN Fail("WrongLength")
   ELSE IF Ev.count > 0 /\ Cardinality({Ev.ws[i] : i \in 1..Len(Ev.ws)}) # Ev.count THEN Fail("WrongNumberOfWords")
   ELSE IF Ev.count > 0 /\ \E i \in 1..Len(Ev.ws) - 1 : Len(Ev.ws[i]) > Len(Ev.ws[i+1]) THEN Fail("NotOrdered")
   ELSE Consume /\ conf' = Conf0(G)
TBalance == IsEvent("balance") /\
   LET calls == {Ev.calls[i] : i \in 1..Len(Ev.calls)}
       rets == {Ev.rets[i] : i \in 1..Len(Ev.rets)}
   IN IF Ev.err THEN Fail("BalanceFailed")
      ELSE IF Ev.out # Balanced(calls, rets, Ev.w) THEN Fail("WrongBalance") ELSE Consume /\ UNCHANGED conf
TEnd == IsEvent("end") /\ IF Ev.g.e # G.e \/ Ev.g.acc # G.acc \/ Ev.g.n # G.n \/ Ev.g.init # G.init THEN Fail("StructureChanged") ELSE Consume /\ UNCHANGED conf
TBad == verdict = "start" /\ Fail("TablesWrong")
TFail == IsEvent("fail") /\ Fail(Ev.what)
Done == verdict = "run" /\ l > Len(C.ev) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<conf, ci, l>>
TraceNext == TReset \/ TStep \/ TQuery \/ TExec \/ TWords \/ TBalance \/ TEnd \/ TBad \/ TFail \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
