------------------------------- MODULE Matching -------------------------------
(* State matching of adaptive learning.  t is an observation tree: nodes 1..N,   *)
(* t.par[n], t.inp[n] (0 for the root), t.out[n] what was observed on entering n  *)
(* (for the root of a Mealy tree "").  r is the union of the reference models:    *)
(* r.d[q][a] (0: undefined), r.o[q][a] for Mealy machines, r.o[q] otherwise.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nodes(t) == 1..Len(t.par)
Kids(t, n) == {m \in Nodes(t) : t.par[m] = n}
OutOn(r, mealy, q, a) == IF mealy THEN r.o[q][a] ELSE r.o[r.d[q][a]]
(* observations below node n agreeing with state q, and all of them inside r *)
RECURSIVE Below(_, _, _, _, _)
RECURSIVE OverKids(_, _, _, _, _)
OverKids(t, r, mealy, q, K) ==
  IF K = {} THEN <<0, 0>>
  ELSE LET m == CHOOSE x \in K : TRUE
           rest == OverKids(t, r, mealy, q, K \ {m})
           a == t.inp[m] IN
       IF r.d[q][a] = 0 THEN rest
       ELSE LET u == Below(t, r, mealy, m, r.d[q][a]) IN
            <<rest[1] + u[1] + (IF t.out[m] = OutOn(r, mealy, q, a) THEN 1 ELSE 0), rest[2] + u[2] + 1>>
Below(t, r, mealy, n, q) == OverKids(t, r, mealy, q, Kids(t, n))
Evidence(t, r, mealy, n, q) ==
  LET u == Below(t, r, mealy, n, q) IN
  IF mealy THEN u ELSE <<u[1] + (IF t.out[n] = r.o[q] THEN 1 ELSE 0), u[2] + 1>>
(* ratio of agreement, compared without division *)
Better(x, y) == IF x[2] = 0 THEN FALSE ELSE IF y[2] = 0 THEN x[1] > 0 ELSE x[1] * y[2] > y[1] * x[2]
Zero(x) == x[1] = 0
AsTotal(x) == IF x[1] = x[2] THEN 1 ELSE 0
States(r) == 1..Len(r.d)
BestApprox(t, r, mealy, n) == LET E == [q \in States(r) |-> Evidence(t, r, mealy, n, q)] IN
   {q \in States(r) : ~Zero(E[q]) /\ ~\E p \in States(r) : Better(E[p], E[q])}
BestTotal(t, r, mealy, n) == {q \in States(r) : AsTotal(Evidence(t, r, mealy, n, q)) = 1}
(* a state of one model behaves like a state of another up to a depth *)
RECURSIVE Alike(_, _, _, _, _, _)
Alike(r, q, s, p, mealy, depth) ==
  /\ mealy \/ r.o[q] = s.o[p]
  /\ depth > 0 => \A a \in 1..Len(r.d[q]) :
       /\ (r.d[q][a] = 0) = (s.d[p][a] = 0)
       /\ r.d[q][a] # 0 => (~mealy \/ r.o[q][a] = s.o[p][a]) /\ Alike(r, r.d[q][a], s, s.d[p][a], mealy, depth - 1)
===============================================================================
