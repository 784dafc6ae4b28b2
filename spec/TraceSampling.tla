------------------------------ MODULE TraceSampling -----------------------------
EXTENDS Sampling, TraceCalls
P == INSTANCE Pushdown WITH conf <- l
(* words of a visibly pushdown system with their verdicts: distinct, not longer   *)
(* than asked for, not more than asked for, and as many where enough words exist  *)
VpaCall(c) == IF Len(c.res) > c.count THEN "requested number of samples"
  ELSE IF \E i \in 1..Len(c.res) : Len(c.res[i].ins) > c.hi \/ Len(c.res[i].ins) < 1 THEN "sample lengths within the bounds"
  ELSE IF \E i \in 1..Len(c.res) : \E j \in 1..Len(c.res[i].ins) : c.res[i].ins[j] \notin P!Letters(c.g) THEN "samples use the given alphabet"
  ELSE IF Cardinality(Set(c.res)) # Len(c.res) THEN "distinct data points"
  ELSE IF c.enough /\ Len(c.res) # c.count THEN "requested number of samples"
  ELSE IF \E i \in 1..Len(c.res) : c.res[i].o # (IF P!Accepts(c.g, c.res[i].ins) THEN "True" ELSE "False") THEN "label is the output the model ends with"
  ELSE "ok"
JudgeS(c) == IF c.op = "vpa" THEN VpaCall(c) ELSE Judge1(c)
=============================================================================
