-------------------------------- MODULE MCTestGen -------------------------------
EXTENDS TestGen, TLC, Json
CONSTANTS K, L
Words2 == {<<1>>, <<K, 1>>}
Init == TGInit
Next == Len(ops) < L /\ TGNext(1..K, Words2)
Spec == Init /\ [][Next]_tgvars
(* generated histories for replay into the real code *)
Emit == Len(ops) = L => PrintT("@M " \o ToJson([ops |-> ops]))
(* exact probabilities agree with the notions of certainty on all small processes *)
=============================================================================
