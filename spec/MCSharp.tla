------------------------------- MODULE MCSharp -------------------------------
(* The rules of L# in any order, for every minimal system of N states over K     *)
(* letters: every question adds to what is known (Norm), the states of the basis  *)
(* are told apart, a model is presented only when it is forced, and the loop ends  *)
(* with the system within the number of questions the norm allows.                 *)
EXTENDS Sharp
CONSTANTS N, K, MealyKind
VARIABLES m, words, B, done, asked
vars == <<m, words, B, done, asked>>
S == 1..N
A == 1..K
O == {0, 1}
RECURSIVE At(_, _, _)
At(x, q, w) == IF w = <<>> THEN q ELSE At(x, x.d[q][Head(w)], Tail(w))
Out(x, q, w) == IF MealyKind THEN x.o[At(x, q, SubSeq(w, 1, Len(w) - 1))][w[Len(w)]] ELSE x.o[At(x, q, w)]
Words(k) == UNION {[1..i -> A] : i \in 0..k}
Full(k) == Words(k) \ {<<>>}
Less(u, w) == Len(u) < Len(w) \/ (Len(u) = Len(w) /\ \E i \in 1..Len(u) : SubSeq(u, 1, i - 1) = SubSeq(w, 1, i - 1) /\ u[i] < w[i])
First(W) == CHOOSE w \in W : \A u \in W : u = w \/ Less(w, u)
Tests == IF MealyKind THEN Full(N) ELSE Words(N)
Split(x, p, q) == {w \in Tests : Out(x, p, w) # Out(x, q, w)}
Machines == [d : [S -> [A -> S]], o : IF MealyKind THEN [S -> [A -> O]] ELSE [S -> O]]
Good(x) == (\A q \in S : \E w \in Words(N - 1) : At(x, 1, w) = q) /\ \A p, q \in S : p < q => Split(x, p, q) # {}
Pre(w) == {SubSeq(w, 1, i) : i \in 0..Len(w)}
(* the tree of the observed words *)
TreeOf(W) == LET num == [w \in W |-> 1 + Cardinality({u \in W : Less(u, w)})]
                 wd == [i \in 1..Cardinality(W) |-> CHOOSE w \in W : num[w] = i] IN
   [par |-> [i \in DOMAIN wd |-> IF wd[i] = <<>> THEN 0 ELSE num[SubSeq(wd[i], 1, Len(wd[i]) - 1)]],
    inp |-> [i \in DOMAIN wd |-> IF wd[i] = <<>> THEN 0 ELSE wd[i][Len(wd[i])]],
    out |-> [i \in DOMAIN wd |-> IF MealyKind /\ wd[i] = <<>> THEN 9 ELSE Out(m, 1, wd[i])],
    kid |-> [i \in DOMAIN wd |-> [a \in A |-> IF Append(wd[i], a) \in W THEN num[Append(wd[i], a)] ELSE 0]],
    num |-> num]
Known(W, b) == LET t == TreeOf(W) IN Norm(t, MealyKind, {t.num[x] : x \in b})
(* told apart by what has been observed *)
Witnesses(u, v) == {w \in Tests \cup Full(2 * N) : u \o w \in words /\ v \o w \in words /\ Out(m, 1, u \o w) # Out(m, 1, v \o w)}
Ap(W, u, v) == LET t == TreeOf(W) IN Apart(t, MealyKind, t.num[u], t.num[v])
Fr == {Append(b, a) : b \in B, a \in A} \ B
Cands(f) == {b \in B : ~Ap(words, f, b)}
Ask(W) == words' = words \cup W /\ asked' = asked + 1 /\ UNCHANGED <<m, B, done>>
Init == m \in {x \in Machines : Good(x)} /\ words = {<<>>} /\ B = {<<>>} /\ done = FALSE /\ asked = 0
Promote == ~done /\ \E f \in Fr \cap words : Cands(f) = {} /\ B' = B \cup {f} /\ UNCHANGED <<m, words, done, asked>>
Extend == ~done /\ \E f \in Fr \ words : Ask(Pre(f))
Separate == ~done /\ \E f \in Fr \cap words : \E x, y \in Cands(f) : x # y /\
              \E w \in {First(Witnesses(x, y))} : Ask(Pre(f \o w))
Adequate == \A f \in Fr : f \in words /\ Cardinality(Cands(f)) = 1
(* the model forced by an adequate tree, as a state per word *)
RECURSIVE Hyp(_, _)
Hyp(b, w) == IF w = <<>> THEN b
             ELSE LET f == Append(b, Head(w)) IN Hyp(IF f \in B THEN f ELSE CHOOSE x \in Cands(f) : TRUE, Tail(w))
HypOut(w) == IF MealyKind THEN Out(m, 1, Append(Hyp(<<>>, SubSeq(w, 1, Len(w) - 1)), w[Len(w)])) ELSE Out(m, 1, Hyp(<<>>, w))
Wrong == {w \in Full(2 * N - 1) : HypOut(w) # Out(m, 1, w)}
Agrees == \A w \in words : w # <<>> => HypOut(w) = Out(m, 1, w)
(* a counterexample (given, or found in the tree) and every way of splitting it *)
Counter == /\ ~done /\ Adequate /\ Wrong # {}
           /\ \E w \in {First(IF Agrees THEN Wrong ELSE Wrong \cap words)} :
                Ask(Pre(w) \cup UNION {Pre(Hyp(<<>>, SubSeq(w, 1, i)) \o SubSeq(w, i + 1, Len(w))) : i \in 0..Len(w)})
Present == ~done /\ Adequate /\ Wrong = {} /\ done' = TRUE /\ UNCHANGED <<m, words, B, asked>>
Next == Promote \/ Extend \/ Separate \/ Counter \/ Present
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ToldApart == \A u, v \in B : u = v \/ Ap(words, u, v)
NoMoreStates == Cardinality(B) <= N
NoLoss == done => Cardinality(B) = N /\ Wrong = {}
FewQuestions == asked <= Known(words, B)
(* promised by the algorithm: every counterexample counts as one question here *)
FewEnough == asked <= K * N * N + N - 1
Grows == [][done' \/ Known(words', B') > Known(words, B)]_vars
Stuck == done \/ ENABLED Next
Ends == <>done
===============================================================================
