--------------------------------- MODULE MCSmc ---------------------------------
(* The three ways to judge an estimate agree on all small processes.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, K, B
VARIABLES g, n
T == INSTANCE TestGen WITH ops <- <<>>, cur <- <<>>, cases <- <<>>
Outs == {"x", "y"}
(* per state and input: one certain edge, or two with weights 3:7 *)
Dist == {<<<<o, t, 10>>>> : o \in Outs, t \in 1..N} \cup {<<<<o, t, 3>>, <<p, u, 7>>>> : o \in Outs, t \in 1..N, p \in Outs, u \in 1..N}
EdgesOf(f) == LET Q == {<<s, a, i>> \in (1..N) \X (1..K) \X (1..2) : i <= Len(f[s][a])}
                  RECURSIVE S(_)
                  S(R) == IF R = {} THEN <<>> ELSE LET q == CHOOSE q \in R : TRUE
                                                       x == f[q[1]][q[2]][q[3]] IN
                          <<[s |-> q[1], a |-> q[2], o |-> x[1], t |-> x[2], p |-> x[3] * 100000]>> \o S(R \ {q})
              IN S(Q)
Init == \E f \in [1..N -> [1..K -> Dist]] : g = [n |-> N, init |-> 1, k |-> K, tr |-> EdgesOf(f)] /\ n = 0
Next == n < B /\ n' = n + 1 /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, n>>
W == T!GoalW(g, {"x"}, 1, n)
CertainIsOne == T!Unavoidable(g, {"x"}, n) = (n > 0 /\ W = T!Pow(10 * K, n))
NeverIsZero == T!Unreachable(g, {"x"}, n) = (W = 0)
Between == W >= 0 /\ W <= T!Pow(10 * K, n)
GrowsWithSteps == [][T!GoalW(g', {"x"}, 1, n') >= 10 * K * W]_<<g, n>>
=============================================================================
