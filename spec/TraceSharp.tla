------------------------------ MODULE TraceSharp ------------------------------
(* Looks at the observation tree whenever L# presents a model h.                 *)
EXTENDS Sharp, TraceCalls
Range(s) == {s[i] : i \in 1..Len(s)}
SharpVerdict(c) ==
  IF c.e = "grow" THEN
     (IF ~(Range(c.before) \subseteq Range(c.after)) THEN "IdentifiedStateGivenUp"
      ELSE IF c.nodes[1] >= c.nodes[2] THEN "NothingLearnt" ELSE "ok")
  ELSE IF c.e = "rows" THEN
     (* L* and KV: node c.acc[i] of the tree of everything observed is the access word of state i *)
     LET A == c.acc IN
     IF ~Explained(c.t, c.m, c.m.init, c.mealy) THEN "ObservationsFalsified"
     ELSE IF \E i \in 1..Len(A) : A[i] = 0 THEN "AccessNeverObserved"
     ELSE IF \E i, j \in 1..Len(A) : i < j /\ ~Apart(c.t, c.mealy, A[i], A[j]) THEN "StatesNotToldApart"
     ELSE IF Len(A) = 1 THEN "ok"      \* one state needs no evidence
     ELSE IF \E i \in 1..Len(A) : \E a \in 1..Len(c.h.d[i]) : c.t.kid[A[i]][a] = 0 THEN "TransitionUnexplored"
     ELSE IF \E i \in 1..Len(A) : \E a \in 1..Len(c.h.d[i]) : \E j \in 1..Len(A) :
               j # c.h.d[i][a] /\ ~Apart(c.t, c.mealy, c.t.kid[A[i]][a], A[j]) THEN "TargetNotIdentified"
     ELSE "ok"
  ELSE LET B == Range(c.basis)
      H == StatesOf(c.t, c.h, c.h.init)
      F == Fringe(c.t, B)
      Cand == [f \in F |-> Candidates(c.t, c.mealy, B, f)]
  IN IF ~Explained(c.t, c.m, c.m.init, c.mealy) THEN "ObservationsFalsified"
     ELSE IF Cardinality(B) # Len(c.basis) \/ Len(c.h.d) # Cardinality(B) \/ 1 \notin B THEN "StatesAreNotTheBasis"
     ELSE IF \E b \in B : b # 1 /\ c.t.par[b] \notin B THEN "BasisNotClosed"
     ELSE IF \E x, y \in B : x < y /\ ~Apart(c.t, c.mealy, x, y) THEN "StatesNotToldApart"
     ELSE IF \E b \in B : \E a \in 1..Len(c.t.kid[1]) : c.t.kid[b][a] = 0 THEN "TransitionUnexplored"
     ELSE IF \E f \in F : Cand[f] = {} THEN "NewStateOverlooked"
     ELSE IF \E f \in F : Cardinality(Cand[f]) > 1 THEN "TargetNotIdentified"
     ELSE IF \E x, y \in B : x < y /\ H[x] = H[y] THEN "StatesAreNotTheBasis"
     ELSE IF \E f \in F : H[f] # H[CHOOSE b \in Cand[f] : TRUE] THEN "TransitionElsewhere"
     ELSE IF ~Explained(c.t, c.h, c.h.init, c.mealy) THEN "ModelContradictsObservations"
     ELSE "ok"
================================================================================
