----------------------------- MODULE TraceExamples -----------------------------
(* Recorded looks at the shipped examples, judged one by one.                    *)
EXTENDS Examples, TraceCalls
Bad(c) == {i \in 1..Len(c.ws) : (c.acc[i] /\ ~May(c.lang, c.ws[i])) \/ (~c.acc[i] /\ Must(c.lang, c.ws[i]))}
Edges(g) == {g.e[i] : i \in 1..Len(g.e)}
ImplMoves(g, s, a) == {[o |-> x.o, t |-> x.t, p |-> x.p] : x \in {x \in Edges(g) : x.s = s /\ x.a = a}}
Total(g, s, a) == SumOf({i \in 1..Len(g.e) : g.e[i].s = s /\ g.e[i].a = a}, LAMBDA i : g.e[i].p)
ProcVerdict(c) == LET g == c.g IN
  IF {x.a : x \in Edges(g)} # Inputs(c.ref) THEN "OtherInputs"
  ELSE IF \E s \in 1..g.n : \E a \in Inputs(c.ref) : Total(g, s, a) # 10 THEN "ProbabilitiesDoNotAddUp"
  ELSE IF g.first # "" /\ g.first # FirstOutput(c.ref) THEN "FirstOutputDiffers"
  ELSE IF ~SameProcess([s \in {g.init} |-> 1], LAMBDA s, a : ImplMoves(g, s, a), [s \in {Start(c.ref)} |-> 1], LAMBDA s, a : Moves(c.ref, s, a), Inputs(c.ref), c.depth)
       THEN "OtherProcess"
  ELSE "ok"
OnfsmVerdict(c) == LET g == c.g IN
  IF \E i, j \in 1..Len(g.e) : i # j /\ g.e[i].s = g.e[j].s /\ g.e[i].a = g.e[j].a /\ g.e[i].o = g.e[j].o THEN "NotObservable"
  ELSE IF \E s \in 1..g.n : \E a \in {"a", "b"} : ~\E x \in Edges(g) : x.s = s /\ x.a = a THEN "InputMissing"
  ELSE IF c.bench THEN (IF SameTraces(g, g.init, "q0", 7) THEN "ok" ELSE "OtherTraces") ELSE "ok"
RECURSIVE MockRun(_, _, _)
MockRun(c, ops, i) == IF i > Len(ops) THEN "ok"
  ELSE LET x == ops[i]
           d == MockNext(c, x.op, x.t, x.bad) IN
       IF x.out # MockOut(c, d, x.op, x.t) THEN "BrokerAnswerDiffers" ELSE MockRun(d, ops, i + 1)
ExampleVerdict(c) ==
  CASE c.e = "lang" -> IF Bad(c) = {} THEN "ok" ELSE IF \E i \in Bad(c) : c.acc[i] THEN "AcceptsOutsideLanguage" ELSE "RejectsInsideLanguage"
    [] c.e = "proc" -> ProcVerdict(c)
    [] c.e = "onfsm" -> OnfsmVerdict(c)
    [] c.e = "mock" -> MockRun(MockInit, c.ops, 1)
    [] c.e = "dates" -> IF \A i \in 1..Len(c.rows) : LET r == c.rows[i] IN r.ok = (r.form /\ IsDate(r.d, r.m, r.y)) THEN "ok" ELSE "DateVerdictDiffers"
    [] OTHER -> "Unknown"
================================================================================
