--------------------------------- MODULE Search --------------------------------
(* Searching counterexamples to hypotheses that allow several answers.  A run   *)
(* is a sequence of steps [a, o]; it refutes a hypothesis that cannot perform it. *)
(* A search executes random runs on the system, stops at the first refuting step  *)
(* and returns the run so far in the shape its learner expects; its memory is     *)
(* that of the deterministic oracles (Oracle).                                    *)
EXTENDS Oracle
G == INSTANCE Graph
Letters(w) == [i \in 1..Len(w) |-> w[i].a]
Answers(w) == [i \in 1..Len(w) |-> w[i].o]
Can(h, w) == G!RunSet(h, {h.init}, Letters(w), Answers(w)) # {}
Inputs_(runs) == [i \in 1..Len(runs) |-> Letters(runs[i])]
Shape(kind) == IF kind = "onfsm" THEN "pair" ELSE IF kind = "mdp" THEN "listwithstart" ELSE "list"
SearchVerdict(h, kind, runs, res) ==
  LET n == Len(runs) IN
  IF ~res.found THEN IF \E i \in 1..n : ~Can(h, runs[i]) THEN "ObservedDifferenceIgnored" ELSE "ok"
  ELSE IF res.shape # Shape(kind) THEN "WrongShape"
  ELSE IF kind = "mdp" /\ res.start # h.lab[h.init] THEN "WrongStart"
  ELSE IF n = 0 \/ res.w # runs[n] THEN "CexNotObserved"
  ELSE IF Can(h, res.w) THEN "SpuriousCounterexample"
  ELSE IF ~Can(h, SubSeq(res.w, 1, Len(res.w) - 1)) THEN "CexHasEarlierDifference"
  ELSE IF \E i \in 1..(n - 1) : ~Can(h, runs[i]) THEN "ObservedDifferenceIgnored"
  ELSE "ok"
=============================================================================
