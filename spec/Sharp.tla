-------------------------------- MODULE Sharp --------------------------------
(* L# : an observation tree and its basis.  t.kid[n][a] (0: not observed),      *)
(* t.out[n] what was observed on entering n, t.par[n], t.inp[n]; node 1 the root. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Apart(_, _, _, _)
Apart(t, mealy, x, y) ==
  IF ~mealy /\ t.out[x] # t.out[y] THEN TRUE
  ELSE \E a \in 1..Len(t.kid[x]) :
       IF t.kid[x][a] = 0 \/ t.kid[y][a] = 0 THEN FALSE
       ELSE IF t.out[t.kid[x][a]] # t.out[t.kid[y][a]] THEN TRUE
       ELSE Apart(t, mealy, t.kid[x][a], t.kid[y][a])
Candidates(t, mealy, B, f) == {b \in B : ~Apart(t, mealy, f, b)}
(* the states of a machine reached by the nodes: parents come before their children *)
StatesOf(t, m, init) == LET S[n \in 1..Len(t.par)] == IF t.par[n] = 0 THEN init ELSE m.d[S[t.par[n]]][t.inp[n]] IN S
Answer(m, mealy, S, t, n) == IF mealy THEN (IF t.par[n] = 0 THEN t.out[n] ELSE m.o[S[t.par[n]]][t.inp[n]]) ELSE m.o[S[n]]
Explained(t, m, init, mealy) == LET S == StatesOf(t, m, init) IN \A n \in 1..Len(t.par) : t.out[n] = Answer(m, mealy, S, t, n)
(* what a tree with basis B knows: pairs kept apart and letters explored *)
Edges(t, B) == {e \in B \X (1..Len(t.kid[1])) : t.kid[e[1]][e[2]] # 0}
Fringe(t, B) == {t.kid[e[1]][e[2]] : e \in Edges(t, B)} \ B
Norm(t, mealy, B) == (Cardinality(B) * (Cardinality(B) + 1)) \div 2 + Cardinality(Edges(t, B))
                     + Cardinality({p \in B \X Fringe(t, B) : Apart(t, mealy, p[1], p[2])})
==============================================================================
