------------------------------- MODULE MCCache -------------------------------
(* All histories of up to Tests tests (whole queries and stepwise tests of    *)
(* words up to length L over K inputs) against a system free to answer        *)
(* anything out of O outputs.  hist is the history so far, as operations the   *)
(* replay driver performs; whole is everything the system really answered.     *)
EXTENDS Cache, TLC, Json
CONSTANTS K, O, L, Tests
VARIABLES hist, fresh
mvars == <<cvars, hist, fresh>>
Words == UNION {[1..i -> 1..K] : i \in 0..L}
Outs(n) == [1..n -> 0..(O-1)]
Op(op, w, o) == [op |-> op, w |-> w, o |-> o]
Log(x) == hist' = Append(hist, x)
NumTests == Cardinality({i \in 1..Len(hist) : hist[i].op \in {"query", "pre", "preload"}})
Init == Start /\ hist = <<>> /\ fresh = TRUE
Query == \E w \in Words \ {<<>>} :
   IF Known(w) THEN QueryCached(w, Recall(w)) /\ Log(Op("query", w, <<>>))
   ELSE \E o \in Outs(Len(w)) : Log(Op("query", w, o)) /\ (QueryExecuted(w, o, o) \/ QueryContradicted(w, o))
Load == \E w \in Words \ {<<>>} : \E o \in Outs(Len(w)) : (Preload(w, o) \/ PreloadContradicted(w, o)) /\ Log(Op("preload", w, o))
DoStep == cur # Closed /\ Len(cur) < L /\ \E a \in 1..K, o \in 0..(O-1) :
             (Step(a, o, o) \/ StepContradicted(a, o)) /\ Log(Op("step", <<a>>, <<o>>))
DoClose == cur # Closed /\ cur # <<>> /\ Close /\ Log(Op("post", <<>>, <<>>))
DoOpen == Open /\ Log(Op("pre", <<>>, <<>>))
Over == failed \/ (NumTests = Tests /\ cur = Closed)
Next == /\ ~Over /\ fresh' = FALSE
        /\ \/ NumTests < Tests /\ (Query \/ DoOpen \/ Load)
           \/ DoStep
           \/ DoClose
Spec == Init /\ [][Next]_mvars
Emit == Over => PrintT("@M " \o ToJson(hist))
=============================================================================
