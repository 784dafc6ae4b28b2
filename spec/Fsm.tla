-------------------------------- MODULE Fsm --------------------------------
(* Deterministic finite-state machines and the language-theoretic notions   *)
(* everything else is specified with.                                       *)
(*   m.mealy : TRUE = outputs on transitions, FALSE = outputs on states     *)
(*   m.n     : number of states 1..n      m.init : initial state            *)
(*   m.k     : number of inputs 1..k                                        *)
(*   m.d     : d[s][a] successor (0 = undefined, -1 = not a listed state)   *)
(*   m.o     : o[s] state output, or o[s][a] transition output (strings)    *)
(* DFAs are Moore machines whose outputs are "True"/"False".                *)
EXTENDS Integers, Sequences, FiniteSets

Inputs(m) == 1..m.k
States(m) == 1..m.n

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Total(m) == \A s \in States(m) : \A a \in Inputs(m) : m.d[s][a] \in States(m)
Closed(m) == \A s \in States(m) : \A a \in Inputs(m) : m.d[s][a] \in 0..m.n
InitOK(m) == m.n >= 1 /\ m.init \in States(m)
Complete(m) == InitOK(m) /\ Total(m) /\ ~m.extra

Delta(m, s, a) == m.d[s][a]
Out(m, s, a) == IF m.mealy THEN m.o[s][a] ELSE m.o[m.d[s][a]]

RECURSIVE After(_, _, _)
After(m, s, w) == IF w = <<>> THEN s ELSE After(m, m.d[s][Head(w)], Tail(w))

(* partial runs: 0 as soon as a transition is undefined *)
RECURSIVE AfterP(_, _, _)
AfterP(m, s, w) == IF s < 1 \/ w = <<>> THEN s ELSE AfterP(m, m.d[s][Head(w)], Tail(w))

RECURSIVE Trace(_, _, _)
Trace(m, s, w) == IF w = <<>> THEN <<>>
                  ELSE <<Out(m, s, Head(w))>> \o Trace(m, m.d[s][Head(w)], Tail(w))

(* output for the empty word, where states carry outputs *)
Eps(m, s) == IF m.mealy THEN "" ELSE m.o[s]

(* what executing a whole word from a state answers: one output per input,
   except the empty word, which answers the state output *)
Answer(m, s, w) == IF w = <<>> THEN (IF m.mealy THEN <<>> ELSE <<m.o[s]>>) ELSE Trace(m, s, w)
LastOut(m, s, w) == IF w = <<>> THEN Eps(m, s)
                    ELSE Out(m, After(m, s, SubSeq(w, 1, Len(w)-1)), w[Len(w)])

(* ------------------------------ reachability --------------------------- *)
Succs(m, S) == {m.d[s][a] : s \in S, a \in Inputs(m)} \cap States(m)
RECURSIVE ReachFrom(_, _, _)
ReachFrom(m, seen, front) ==
  IF front = {} THEN seen
  ELSE LET new == Succs(m, front) \ seen IN ReachFrom(m, seen \cup new, new)
Reach(m) == ReachFrom(m, {m.init}, {m.init})
ReachS(m, s) == ReachFrom(m, {s}, {s})
AllReachable(m) == Reach(m) = States(m)

(* BFS distance (length of a shortest word) from s to t, -1 if none *)
RECURSIVE DistL(_, _, _, _, _)
DistL(m, seen, front, t, n) ==
  IF t \in front THEN n
  ELSE LET new == Succs(m, front) \ seen
       IN IF new = {} THEN -1 ELSE DistL(m, seen \cup new, new, t, n + 1)
Dist(m, s, t) == DistL(m, {s}, {s}, t, 0)

(* ------------------- equivalence by product exploration ----------------- *)
PairDiff(m1, m2, p) ==
  IF m1.mealy THEN \E a \in Inputs(m1) : m1.o[p[1]][a] # m2.o[p[2]][a]
  ELSE m1.o[p[1]] # m2.o[p[2]]
PairSucc(m1, m2, P) == {<<m1.d[p[1]][a], m2.d[p[2]][a]>> : p \in P, a \in Inputs(m1)}
RECURSIVE EqFrom(_, _, _, _)
EqFrom(m1, m2, seen, front) ==
  IF front = {} THEN TRUE
  ELSE IF \E p \in front : PairDiff(m1, m2, p) THEN FALSE
  ELSE LET new == PairSucc(m1, m2, front) \ seen
       IN EqFrom(m1, m2, seen \cup new, new)
(* same outputs on every word (empty word included) from states s1, s2 *)
EqStates(m1, s1, m2, s2) == EqFrom(m1, m2, {<<s1, s2>>}, {<<s1, s2>>})
Equiv(m1, m2) == EqStates(m1, m1.init, m2, m2.init)

(* equivalence on all words of length at most L *)
RECURSIVE EqUpTo(_, _, _, _)
EqUpTo(m1, m2, front, L) ==
  IF \E p \in front : ~m1.mealy /\ m1.o[p[1]] # m2.o[p[2]] THEN FALSE
  ELSE IF L = 0 THEN TRUE
  ELSE IF m1.mealy /\ \E p \in front : PairDiff(m1, m2, p) THEN FALSE
  ELSE EqUpTo(m1, m2, PairSucc(m1, m2, front), L - 1)
EquivUpTo(m1, m2, L) == EqUpTo(m1, m2, {<<m1.init, m2.init>>}, L)

(* ------------------------ Myhill-Nerode classes ------------------------ *)
Rep0(m) == [s \in States(m) |-> MinOf({t \in States(m) : m.o[t] = m.o[s]})]
RefineRep(m, c) ==
  [s \in States(m) |-> MinOf({t \in States(m) : /\ c[t] = c[s]
                                /\ \A a \in Inputs(m) : c[m.d[t][a]] = c[m.d[s][a]]})]
RECURSIVE FixRep(_, _)
FixRep(m, c) == LET c2 == RefineRep(m, c) IN IF c2 = c THEN c ELSE FixRep(m, c2)
Classes(m) == FixRep(m, Rep0(m))
NumClasses(m) == LET c == Classes(m) IN Cardinality({c[s] : s \in States(m)})
MinSize(m) == LET c == Classes(m) IN Cardinality({c[s] : s \in Reach(m)})
Minimal(m) == NumClasses(m) = m.n

(* all words of length exactly / at most L *)
Words(k, L) == [1..L -> 1..k]
WordsUpTo(k, L) == UNION {Words(k, i) : i \in 0..L}

IsPrefixOf(u, w) == Len(u) <= Len(w) /\ \A i \in 1..Len(u) : u[i] = w[i]
=============================================================================
