------------------------------- MODULE MCAdapter -------------------------------
(* Every history of up to L uses of an adapter: whole queries, and runs opened,   *)
(* stepped, closed or simply abandoned.  Emitted for replay into the real code.   *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS K, L
VARIABLES hist, open
Op(op, u) == [op |-> op, w |-> u]
Words == {<<>>} \cup {<<a>> : a \in 1..K} \cup {<<a, b>> : a, b \in 1..K}
Init == hist = <<>> /\ open = FALSE
Next == /\ Len(hist) < L
        /\ \/ \E u \in Words : hist' = Append(hist, Op("query", u)) /\ open' = FALSE
           \/ \E u \in Words \ {<<>>} : hist' = Append(hist, Op("io", u)) /\ open' = FALSE
           \/ hist' = Append(hist, Op("pre", <<>>)) /\ open' = TRUE
           \/ open /\ \E a \in 0..K : hist' = Append(hist, Op("step", <<a>>)) /\ open' = TRUE
           \/ open /\ hist' = Append(hist, Op("post", <<>>)) /\ open' = FALSE
Spec == Init /\ [][Next]_<<hist, open>>
Emit == Len(hist) = L => PrintT("@M " \o ToJson(hist))
=============================================================================
