-------------------------------- MODULE MCActive -------------------------------
(* Any passive learner that agrees with its data, any sampler, any system: the     *)
(* result agrees with everything observed, and with the given data even where       *)
(* that is about another system as long as no observation contradicts it.          *)
EXTENDS Active
CONSTANTS K, L, R
VARIABLES sys, given, done
mv == <<data, model, rounds, sys, given, done>>
Obs == WordsUpTo(K, L) \ {<<>>}
Maps == [Obs -> {"0", "1"}]
Init == /\ sys \in Maps /\ given \in {{}} \cup {{<<w, sys[w]>>} : w \in Obs} /\ ActInit(given) /\ done = FALSE
Iterate == ~done /\ rounds < R /\ \E T \in {T \in SUBSET Obs : Cardinality(T) = 1}, m \in {sys, [w \in Obs |-> IF <<w, sys[w]>> \in data THEN sys[w] ELSE "0"]} :
             Round(sys, T, m) /\ UNCHANGED <<sys, given, done>>
Finish == ~done /\ rounds = R /\ (\E m \in {sys, [w \in Obs |-> IF <<w, sys[w]>> \in data THEN sys[w] ELSE "1"]} : Last(m)) /\ done' = TRUE /\ UNCHANGED <<rounds, sys, given>>
Next == Iterate \/ Finish
Spec == Init /\ [][Next]_mv /\ WF_mv(Next)
GivenKept == given \subseteq data
OnlyObserved == \A x \in data \ given : x[2] = sys[x[1]]
ResultAgrees == done => \A x \in data : model[x[1]] = x[2]
DataGrows == [][data \subseteq data']_mv
Ends == <>done
=============================================================================
