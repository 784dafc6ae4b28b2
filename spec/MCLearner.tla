------------------------------ MODULE MCLearner ------------------------------
(* All targets, all hypotheses a learner may present, all counterexamples.   *)
EXTENDS Learner
CONSTANTS N, K, O, MealyT
Raw(n) == IF MealyT
  THEN {[mealy |-> TRUE, n |-> n, init |-> 1, k |-> K, d |-> d, o |-> o, extra |-> FALSE] :
           d \in [1..n -> [1..K -> 1..n]], o \in [1..n -> [1..K -> 1..O]]}
  ELSE {[mealy |-> FALSE, n |-> n, init |-> 1, k |-> K, d |-> d, o |-> o, extra |-> FALSE] :
           d \in [1..n -> [1..K -> 1..n]], o \in [1..n -> 1..O]}
Machines == {m \in UNION {Raw(n) : n \in 1..N} : AllReachable(m)}
MaxW == 2 * N - 1
Init == \E t \in Machines : Begin(t)
Next == \/ phase = "learn" /\ \E H \in {h \in Machines : h.n > hyp.n} :
                \E acc \in [States(H) -> States(T)] : Present(H, acc)
        \/ \E w \in WordsUpTo(K, MaxW) : CounterExample(w)
        \/ Confirm
        \/ phase = "done" /\ UNCHANGED lvars
Spec == Init /\ [][Next]_lvars /\ WF_lvars(Next)
TypeOK == phase \in {"learn", "asked", "done"} /\ rounds \in 0..(N + 1)
=============================================================================
