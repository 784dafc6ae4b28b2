------------------------------- MODULE MCRunLaws -------------------------------
(* The operations of Run on every nondeterministic graph with N states and K    *)
(* inputs, 2 outputs: running w step by step reaches exactly what executing w    *)
(* reaches, and looking ahead answers the same without moving.                  *)
EXTENDS Run, TLC, SequencesExt
CONSTANTS N, K, L, MaxEdges
VARIABLES g, w, outs, from
vars == <<g, w, outs, from, cur>>
AllEdges == [s : 1..N, a : 1..K, o : {"0", "1"}, t : 1..N, p : {1}]
Init == /\ \E E \in {E \in SUBSET AllEdges : Cardinality(E) <= MaxEdges} :
              g = [n |-> N, init |-> 1, lab |-> [s \in 1..N |-> ToString(s)], eps |-> TRUE, tr |-> SetToSeq(E)]
        /\ w = <<>> /\ outs = <<>> /\ from = 1 /\ cur = 1
StepOn == /\ Len(w) < L
          /\ \E a \in 1..K, o \in {"0", "1"} : DoStep(g, a, o) /\ w' = Append(w, a) /\ outs' = Append(outs, o)
          /\ UNCHANGED <<g, from>>
Look == \E s \in 1..N, a \in 1..K, o \in {"0", "1"} : DoLook(g, s, <<a>>, <<o>>) /\ UNCHANGED <<g, w, outs, from>>
Back == DoReset(g) /\ w' = <<>> /\ outs' = <<>> /\ UNCHANGED <<g, from>>
Next == StepOn \/ Look \/ Back
Spec == Init /\ [][Next]_vars
StepsAreExecutions == cur \in RunSet(g, {from}, w, outs)
ExecutionIsPossible == PossiblyDefined(g, from, w) /\ (Det(g) => RunSet(g, {from}, w, outs) = {cur})
=============================================================================
