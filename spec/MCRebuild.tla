------------------------------ MODULE MCRebuild ------------------------------
(* Rebuilding from one reference that is the system itself: pairs of a state of  *)
(* the basis and a successor with an access word of the reference are separated   *)
(* by the reference's own separating words, isolated successors are promoted.      *)
(* When nothing is left to do every state has been found, in whatever order the    *)
(* pairs and promotions came.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K
VARIABLES m, words, basis
vars == <<m, words, basis>>
S == 1..N
A == 1..K
O == {0, 1}
RECURSIVE At(_, _, _)
At(x, q, w) == IF w = <<>> THEN q ELSE At(x, x.d[q][Head(w)], Tail(w))
Out(x, q, w) == x.o[At(x, q, SubSeq(w, 1, Len(w) - 1))][w[Len(w)]]
Words(k) == UNION {[1..i -> A] : i \in 0..k}
Less(u, w) == Len(u) < Len(w) \/ (Len(u) = Len(w) /\ \E i \in 1..Len(u) : SubSeq(u, 1, i - 1) = SubSeq(w, 1, i - 1) /\ u[i] < w[i])
First(W) == CHOOSE w \in W : \A u \in W : u = w \/ Less(w, u)
Splits(x, p, q) == {w \in Words(N) : w # <<>> /\ Out(x, p, w) # Out(x, q, w)}
Reachable(x) == \A q \in S : \E w \in Words(N - 1) : At(x, 1, w) = q
Minimal(x) == \A p, q \in S : p < q => Splits(x, p, q) # {}
Acc(x, q) == First({w \in Words(N - 1) : At(x, 1, w) = q})
P == {Acc(m, q) : q \in S}
Pre(w) == {SubSeq(w, 1, i) : i \in 0..Len(w)}
State(w) == At(m, 1, w)
Apart(u, v) == \E w \in Words(N) : w # <<>> /\ u \o w \in words /\ v \o w \in words /\ Out(m, State(u), w) # Out(m, State(v), w)
Init == /\ m \in {x \in [d : [S -> [A -> S]], o : [S -> [A -> O]]] : Reachable(x) /\ Minimal(x)}
        /\ words = {<<>>} /\ basis = {<<>>}
Asked(f, v) == LET w == First(Splits(m, State(f), State(v))) IN Pre(f \o w) \cup Pre(v \o w)
Fringe == {f \in P \ basis : SubSeq(f, 1, Len(f) - 1) \in basis}
Query == \E f \in Fringe, v \in basis : /\ ~Apart(f, v) /\ ~(Asked(f, v) \subseteq words)
                                        /\ words' = words \cup Asked(f, v) /\ UNCHANGED <<m, basis>>
Isolated(f) == f \in words /\ \A v \in basis : Apart(f, v)
Promote == \E f \in Fringe : Isolated(f) /\ basis' = basis \cup {f} /\ UNCHANGED <<m, words>>
Next == Query \/ Promote
Spec == Init /\ [][Next]_vars
Left == (\E f \in Fringe, v \in basis : ~Apart(f, v) /\ ~(Asked(f, v) \subseteq words)) \/ \E f \in Fringe : Isolated(f)
(* nothing left to do only when everything has been found *)
AllFound == Left \/ basis = P
Sound == \A u, v \in basis : u = v \/ State(u) # State(v)
TreeClosed == \A w \in words : Pre(w) \subseteq words
(* something left: an unfinished pair can always still be separated *)
Progress == \A f \in Fringe, v \in basis : Apart(f, v) \/ ~(Asked(f, v) \subseteq words)
===============================================================================
