------------------------------ MODULE MCDialogue ------------------------------
(* All dialogues of up to L commands over K inputs, on a hypothesis H and a       *)
(* system T that differ.                                                         *)
EXTENDS Dialogue, TLC, Json
CONSTANTS K, L
VARIABLE hist
T == [mealy |-> TRUE, n |-> 2, init |-> 1, k |-> K, d |-> <<[a \in 1..K |-> 2], [a \in 1..K |-> IF a = 1 THEN 1 ELSE 2]>>,
      o |-> <<[a \in 1..K |-> "x"], [a \in 1..K |-> IF a = 1 THEN "y" ELSE "x"]>>, extra |-> FALSE]
H == [mealy |-> TRUE, n |-> 1, init |-> 1, k |-> K, d |-> <<[a \in 1..K |-> 1]>>, o |-> <<[a \in 1..K |-> "x"]>>, extra |-> FALSE]
Log(x) == hist' = Append(hist, x)
Init == DInit /\ hist = <<>>
Ended == phase \in {"cex", "none"}
Next == \/ Len(hist) < L /\ phase # "idle" /\
             \/ \E a \in 1..K : Letter(H, T, a) /\ Log(<<"letter", a>>)
             \/ StartOver /\ Log(<<"reset">>)
             \/ Cex /\ Log(<<"cex">>)
             \/ End /\ Log(<<"end">>)
             \/ Show("alphabet", [a \in 1..K |-> a]) /\ Log(<<"alphabet">>)
             \/ Show("current", word) /\ Log(<<"current">>)
             \/ Ignore /\ Log(<<"junk">>)
             \/ Ignore /\ Log(<<"help">>)
        \/ phase = "idle" /\ hist = <<>> /\ Begin /\ Log(<<"begin">>)
Spec == Init /\ [][Next]_<<dvars, hist>>
SameWord == phase = "idle" \/ word = Entered(hist)
CexNonempty == phase = "cex" => word # <<>>
Counted == ns = Cardinality({i \in 1..Len(hist) : hist[i][1] = "letter"}) /\ nq = Cardinality({i \in 1..Len(hist) : hist[i][1] \in {"reset", "begin"}})
ClaimsReal == Claimed => Trace(H, 1, word) # Trace(T, 1, word)
(* whoever returns at the first difference shown returns a counterexample *)
FirstDifference == (Claimed /\ \A i \in 1..(Len(word) - 1) : LastOut(H, 1, SubSeq(word, 1, i)) = LastOut(T, 1, SubSeq(word, 1, i)))
                     => LastOut(H, 1, word) # LastOut(T, 1, word)
Emit == (Ended \/ Len(hist) = L) => PrintT("@M " \o ToJson(hist))
=============================================================================
