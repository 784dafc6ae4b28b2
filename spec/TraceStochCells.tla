--------------------------- MODULE TraceStochCells ---------------------------
(* Single decisions of the library's compatibility tests.                      *)
EXTENDS TraceCalls
S == INSTANCE StochLearner WITH sys <- <<>>, runs <- <<>>, model <- <<>>, phase <- ""
CellOf(ps) == [o \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = o][2]]
Surely(st, c, d) == CASE st = "classic" -> DOMAIN c # DOMAIN d \/ S!HoeffdingDiff(c, d, S!Slack)
                      [] st = "normal" -> S!HoeffdingDiff(c, d, S!Slack)
                      [] OTHER -> S!Chi2Diff(c, d, 2)
Maybe(st, c, d) == CASE st = "classic" -> DOMAIN c # DOMAIN d \/ S!HoeffdingDiff(c, d, -S!Slack)
                     [] st = "normal" -> S!HoeffdingDiff(c, d, -S!Slack)
                     [] OTHER -> S!Chi2Diff(c, d, -2)
JudgeCells(r) ==
  LET c == CellOf(r.a) d == CellOf(r.b) IN
  IF r.diff # r.back THEN "TestNotSymmetric"
  ELSE IF ~r.kept THEN "CellsChanged"
  ELSE IF r.diff /\ ~Maybe(r.st, c, d) THEN "SeparatedWithoutEvidence"
  ELSE IF ~r.diff /\ Surely(r.st, c, d) THEN "EvidenceIgnored"
  ELSE "ok"
=============================================================================
