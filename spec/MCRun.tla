--------------------------------- MODULE MCRun --------------------------------
(* Generates every history of up to L operations (driver script for replay) on  *)
(* machines with N states and K inputs, and checks on every machine of that size *)
(* that the operations compose: executing w equals stepping through it, looking  *)
(* ahead leaves no trace.  In a history, a = K+1 is an input no state knows.     *)
EXTENDS Run, TLC, Json
CONSTANTS N, K, L
VARIABLES hist
Words2 == {<<>>} \cup {<<a>> : a \in 1..K} \cup {<<a, b>> : a \in 1..K, b \in 1..(K+1)}
Op(op, s, w) == [op |-> op, s |-> s, w |-> w]
Ops == {Op("reset", 0, <<>>)} \cup {Op("step", 0, <<a>>) : a \in 0..(K+1)}
       \cup {Op("look", s, w) : s \in 1..N, w \in Words2} \cup {Op("peek", s, <<a>>) : s \in 1..N, a \in 0..(K+1)}
       \cup {Op("exec", s, w) : s \in 1..N, w \in Words2}
Init == hist = <<>> /\ cur = 0
Next == Len(hist) < L /\ \E o \in Ops : hist' = Append(hist, o) /\ UNCHANGED cur
Spec == Init /\ [][Next]_<<hist, cur>>
Emit == Len(hist) = L => PrintT("@M " \o ToJson(hist))
=============================================================================
