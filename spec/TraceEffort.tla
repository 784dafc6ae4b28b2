----------------------------- MODULE TraceEffort -----------------------------
(* The number of questions of a finished run against what Effort allows.          *)
EXTENDS Effort, TraceCalls
EffortVerdict(c) ==
  LET M == Largest(c.cex) IN
  IF Len(c.cex) > Max(c.n - 1, 1) THEN "TooManyCounterexamples"
  ELSE IF c.alg = "lsharp" THEN
     (IF c.asked > Sharp(c.n, c.k, c.longest) + (IF c.mealy THEN 0 ELSE 1) THEN "TooManyQuestions"
      ELSE IF c.known > (c.n - 1) * (Bisect(c.longest) + 1) + (IF c.mealy THEN 0 ELSE 1) THEN "AskedAlreadyKnown"
      ELSE "ok")
  ELSE IF c.alg = "kv" THEN (IF c.distinct > Kv(c.n, c.k, c.how, M) THEN "TooManyQuestions" ELSE "ok")
  ELSE IF c.asked > Table(c.n, c.k, c.mealy, c.how, c.closed, c.cex) THEN "TooManyQuestions"
  ELSE IF c.columns > Columns(c.n, c.k, c.mealy, c.how, c.closed, M) THEN "TooManyColumns"
  ELSE IF c.columns > 0 /\ c.asked > Cells(c.n, c.k, c.how, c.cex, c.columns) THEN "CellsFilledTwice" ELSE "ok"
===============================================================================
