------------------------------- MODULE MCSampling ------------------------------
(* What "complete" means: a sample that exercises every transition and separates  *)
(* different states determines the machine among all machines of its size.        *)
EXTENDS Sampling, TLC
CONSTANTS N, K, Mealy
VARIABLES m, W, h
Bit == {"0", "1"}
MachinesOf(n) == [mealy : {Mealy}, n : {n}, init : {1}, k : {K}, extra : {FALSE},
                  d : [1..n -> [1..K -> 1..n]], o : IF Mealy THEN [1..n -> [1..K -> Bit]] ELSE [1..n -> Bit]]
Acc(q) == CHOOSE w \in WordsUpTo(K, m.n - 1) : After(m, 1, w) = q /\ Len(w) = Dist(m, 1, q)
AccF == [q \in States(m) |-> Acc(q)]
Sample == {Acc(q) \o x : q \in States(m), x \in {i \o v : i \in WordsUpTo(K, 1), v \in W}}
Init == /\ m \in {x \in MachinesOf(N) : AllReachable(x) /\ Minimal(x)}
        /\ W \in {w \in SUBSET WordsUpTo(K, N - 1) : Cardinality(w) \in 1..2}
        /\ h = m
Next == h = m /\ h' \in UNION {MachinesOf(i) : i \in 1..N} /\ UNCHANGED <<m, W>>
Spec == Init /\ [][Next]_<<m, W, h>>
Consistent == \A w \in Sample : Trace(m, 1, w) = Trace(h, 1, w) /\ Eps(m, 1) = Eps(h, 1)
(* a separating set of suffixes gives a complete sample *)
Separates == \A p, q \in States(m) : p # q => \E v \in W : SeenDiff(m, p, q, v)
ConstructionComplete == Separates => CompleteSample(m, AccF, Sample) = "ok"
CompleteDetermines == CompleteSample(m, AccF, Sample) = "ok" /\ Consistent => Equiv(m, h)
=============================================================================
