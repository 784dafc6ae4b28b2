--------------------------------- MODULE MCFsm --------------------------------
(* The notions of Fsm and Algo agree with their definitions by words, on all     *)
(* pairs of machines with up to N states (not only reachable ones).             *)
EXTENDS Algo, TLC
CONSTANTS N, K, Mealy, Partial
VARIABLES m1, m2
Bit == {"0", "1"}
Machines == UNION {[mealy : {Mealy}, n : {n}, init : {1}, k : {K}, extra : {FALSE},
                    d : [1..n -> [1..K -> (IF Partial THEN 0 ELSE 1)..n]],
                    o : IF Mealy THEN [1..n -> [1..K -> Bit]] ELSE [1..n -> Bit]] : n \in 1..N}
Init == m1 \in Machines /\ m2 \in Machines
Next == UNCHANGED <<m1, m2>>
Spec == Init /\ [][Next]_<<m1, m2>>
L == m1.n + m2.n
ByWords(a, s, b, t) == \A w \in WordsUpTo(K, L) : ~DiffOn(a, s, b, t, w)
EquivalenceIsByWords == PEquiv(m1, m2) = ByWords(m1, 1, m2, 1)
CompleteAgrees == Partial \/ Equiv(m1, m2) = PEquiv(m1, m2)
ClassesAreByWords == Partial \/ LET c == Classes(m1) IN \A s, t \in States(m1) : (c[s] = c[t]) = ByWords(m1, s, m1, t)
DistanceIsByWords == \A s, t \in States(m1) :
   LET D == {Len(w) : w \in {w \in WordsUpTo(K, m1.n) : AfterP(m1, s, w) = t}}
   IN Dist(m1, s, t) = IF D = {} THEN -1 ELSE MinOf(D)
=============================================================================
