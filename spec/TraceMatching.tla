----------------------------- MODULE TraceMatching -----------------------------
(* Snapshots of the bookkeeping of adaptive learning, one per presented model.   *)
EXTENDS Matching, TraceCalls
RefOk(c) == \A i \in 1..Len(c.refs) : LET g == c.refs[i] IN g.usable =>
               \A q \in 1..Len(g.d) : \E p \in States(c.r) : Alike(g, q, c.r, p, c.mealy, 4)
RefOnly(c) == \A p \in States(c.r) : \E i \in 1..Len(c.refs) : c.refs[i].usable /\ \E q \in 1..Len(c.refs[i].d) : Alike(c.r, p, c.refs[i], q, c.mealy, 4)
(* no two states of the target are alike *)
Minimal(c) == \A p, q \in 1..Len(c.t.d) : p < q => ~Alike(c.t, p, c.t, q, c.mealy, Len(c.t.d))
(* a single reference that is the target itself leaves nothing to be found by counterexamples *)
Known(c) == IF c.same THEN Minimal(c) ELSE FALSE
MatchVerdict(c) ==
  IF c.e = "info" THEN
     (IF c.rebuilding /\ c.rebuilt # c.first - 1 THEN "RebuiltStatesMiscounted"
      ELSE IF c.type # c.want THEN "MatchingTypeMisreported"
      ELSE IF c.matched < 0 \/ c.matched + (IF c.rebuilding THEN c.rebuilt ELSE 0) > c.size - 1 THEN "MatchedStatesMiscounted"
      
      ELSE IF ~Known(c) THEN "ok"
      ELSE IF c.rebuilding /\ c.mealy /\ c.first # c.size THEN "EqualReferenceNotRebuilt"
      ELSE IF (c.mealy \/ c.want # "None") /\ c.rounds # 1 THEN "EqualReferenceNeedsRounds"
      ELSE "ok")
  ELSE IF c.e = "refs" THEN (IF ~RefOk(c) THEN "ReferenceLost" ELSE IF ~RefOnly(c) THEN "ReferenceInvented" ELSE "ok")
  ELSE LET bad == {i \in 1..Len(c.basis) : \E q \in States(c.r) :
                     LET e == Evidence(c.t, c.r, c.mealy, c.basis[i].node, q) IN
                     c.basis[i].score[q] # (IF c.total THEN <<AsTotal(e), 0>> ELSE e)}
           off == {i \in 1..Len(c.basis) : {c.basis[i].best[j] : j \in 1..Len(c.basis[i].best)} #
                     (IF c.total THEN BestTotal(c.t, c.r, c.mealy, c.basis[i].node) ELSE BestApprox(c.t, c.r, c.mealy, c.basis[i].node))} IN
       IF c.missing THEN "BasisStateWithoutMatch" ELSE IF bad # {} THEN "ScoreIsNotTheEvidence" ELSE IF off # {} THEN "BestMatchDiffers" ELSE "ok"
================================================================================
