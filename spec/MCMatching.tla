------------------------------ MODULE MCMatching ------------------------------
(* The incremental bookkeeping - every new piece of an observation counted once   *)
(* per state of the basis it passes through - keeps exactly the evidence the       *)
(* definition gives, for every system, partial reference and order of events.      *)
EXTENDS Matching, SequencesExt
CONSTANTS L,        \* length of observations
          Q,        \* observations
          MealyKind
VARIABLES sys, ref, words, basis, score, n
vars == <<sys, ref, words, basis, score, n>>
A == {1, 2}
O == {"x", "y"}
Outs == IF MealyKind THEN [A -> O] ELSE O
Sys == {[d |-> <<<<2, 1>>, <<1, 2>>>>, o |-> IF MealyKind THEN <<<<"x", "y">>, <<"y", "y">>>> ELSE <<"x", "y">>]}
Ref == {m \in [d : [1..2 -> [A -> 0..2]], o : [1..2 -> Outs]] : m.o[1] # m.o[2]}
RECURSIVE At(_, _, _)
At(m, s, w) == IF w = <<>> \/ s = 0 THEN s ELSE At(m, m.d[s][Head(w)], Tail(w))
OutAfter(m, w) == LET u == SubSeq(w, 1, Len(w) - 1) IN
   IF w = <<>> THEN (IF MealyKind THEN "" ELSE m.o[1])
   ELSE IF MealyKind THEN m.o[At(m, 1, u)][w[Len(w)]] ELSE m.o[At(m, 1, w)]
RefOut(q, u, a) == LET s == At(ref, q, u) IN IF MealyKind THEN ref.o[s][a] ELSE ref.o[ref.d[s][a]]
Defined(q, u) == At(ref, q, u) # 0
Words == UNION {[1..k -> A] : k \in 1..L}
Pre(w) == {SubSeq(w, 1, i) : i \in 0..Len(w)}
(* evidence counted for b and q when the observation w is new from position i + 1 on *)
New(b, q, w, i) == {j \in (IF i > Len(b) THEN i + 1 ELSE Len(b) + 1)..Len(w) : Defined(q, SubSeq(w, Len(b) + 1, j))}
Gain(b, q, w, i) == LET J == New(b, q, w, i) IN
   <<Cardinality({j \in J : OutAfter(sys, SubSeq(w, 1, j)) = RefOut(q, SubSeq(w, Len(b) + 1, j - 1), w[j])}), Cardinality(J)>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Empty(b, q) == IF MealyKind THEN <<0, 0>> ELSE <<IF OutAfter(sys, b) = ref.o[q] THEN 1 ELSE 0, 1>>
Known(w) == CHOOSE i \in 0..Len(w) : SubSeq(w, 1, i) \in words /\ (i = Len(w) \/ SubSeq(w, 1, i + 1) \notin words)
Init == /\ sys \in Sys /\ ref \in Ref /\ words = {<<>>} /\ basis = {<<>>} /\ n = 0
        /\ score = [p \in {<<>>} \X {1, 2} |-> Empty(<<>>, p[2])]
Observe == /\ n < Q /\ n' = n + 1
           /\ \E w \in Words : /\ w \notin words
              /\ words' = words \cup Pre(w)
              /\ score' = [p \in DOMAIN score |-> IF p[1] \in Pre(w) THEN Plus(score[p], Gain(p[1], p[2], w, Known(w))) ELSE score[p]]
           /\ UNCHANGED <<sys, ref, basis>>
(* a state joins the basis: its longest observations are counted one after the other, each from *)
(* where it leaves the one before                                                               *)
Leaves(b) == {w \in words : Len(b) <= Len(w) /\ SubSeq(w, 1, Len(b)) = b /\ ~\E a \in A : Append(w, a) \in words}
Less(u, w) == \E i \in 1..Len(u) : i <= Len(w) /\ SubSeq(u, 1, i - 1) = SubSeq(w, 1, i - 1) /\ u[i] < w[i]
Common(u, w) == CHOOSE i \in 0..Len(w) : /\ i <= Len(u) /\ SubSeq(u, 1, i) = SubSeq(w, 1, i)
                                         /\ (i = Len(w) \/ i = Len(u) \/ u[i + 1] # w[i + 1])
Count(b, q) == LET W == SetToSortSeq(Leaves(b), Less) IN
   FoldLeft(LAMBDA x, k : Plus(x, Gain(b, q, W[k], IF k = 1 THEN Len(b) ELSE Common(W[k - 1], W[k]))), Empty(b, q), [k \in 1..Len(W) |-> k])
Join == /\ \E b \in words \ basis : /\ basis' = basis \cup {b}
           /\ score' = [p \in (basis \cup {b}) \X {1, 2} |-> IF p[1] = b THEN Count(b, p[2]) ELSE score[p]]
        /\ Cardinality(basis) < 2 /\ UNCHANGED <<sys, ref, words, n>>
Next == Observe \/ Join
Spec == Init /\ [][Next]_vars
(* the tree of the observations *)
Seq0 == SetToSortSeq(words, LAMBDA u, w : Len(u) < Len(w) \/ (Len(u) = Len(w) /\ Less(u, w)))
No(w) == CHOOSE i \in 1..Len(Seq0) : Seq0[i] = w
Tree == [par |-> [i \in 1..Len(Seq0) |-> IF Seq0[i] = <<>> THEN 0 ELSE No(SubSeq(Seq0[i], 1, Len(Seq0[i]) - 1))],
         inp |-> [i \in 1..Len(Seq0) |-> IF Seq0[i] = <<>> THEN 0 ELSE Seq0[i][Len(Seq0[i])]],
         out |-> [i \in 1..Len(Seq0) |-> OutAfter(sys, Seq0[i])]]
CountedOnce == \A p \in DOMAIN score : score[p] = Evidence(Tree, ref, MealyKind, No(p[1]), p[2])
TotalIsAgreement == \A p \in DOMAIN score : AsTotal(score[p]) = 1 => \A w \in words : p[1] \in Pre(w) /\ w # p[1] /\ Defined(p[2], SubSeq(w, Len(p[1]) + 1, Len(w)))
    => OutAfter(sys, w) = RefOut(p[2], SubSeq(w, Len(p[1]) + 1, Len(w) - 1), w[Len(w)])
EvidenceGrows == [][\A p \in DOMAIN score : p \in DOMAIN score' /\ score'[p][1] >= score[p][1] /\ score'[p][2] >= score[p][2]]_vars
================================================================================
