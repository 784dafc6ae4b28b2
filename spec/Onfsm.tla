--------------------------------- MODULE Onfsm ---------------------------------
(* Learning observable non-deterministic systems.  A call c records a whole     *)
(* run: c.T the system, c.M the returned model, c.pre[s] the access trace the    *)
(* model attaches to state s, and c.tree everything the system answered (and    *)
(* the given samples): node i >= 1 extends node par[i] by input a[i] and output  *)
(* o[i] and was seen c[i] times; node 0 is the start.                           *)
EXTENDS Graph, SequencesExt, TLC
(* ---- languages of input/output traces *)
Step(g, S, a, o) == {e.t : e \in {e \in Edges(g) : e.s \in S /\ e.a = a /\ e.o = o}}
InclNext(g, h, pairs) == UNION {{<<e.t, Step(h, p[2], e.a, e.o)>> : e \in {e \in Edges(g) : e.s = p[1]}} : p \in pairs}
RECURSIVE InclFrom(_, _, _, _)
InclFrom(g, h, seen, front) ==
  IF \E p \in front : p[2] = {} THEN FALSE
  ELSE LET new == InclNext(g, h, front) \ seen IN new = {} \/ InclFrom(g, h, seen \cup new, new)
TraceIncluded(g, h) == LET i == {<<g.init, {h.init}>>} IN InclFrom(g, h, i, i)
(* ---- states of an observable graph with the same traces *)
Refine(g, k) == [s \in GStates(g) |-> {<<e.a, e.o, k[e.t]>> : e \in {e \in Edges(g) : e.s = s}}]
RECURSIVE Classes(_, _, _)
Classes(g, i, k) == IF i = 0 THEN k
   ELSE LET r == TLCEval(Refine(g, k))
            n == TLCEval([s \in GStates(g) |-> CHOOSE t \in GStates(g) : r[t] = r[s]]) IN Classes(g, i - 1, n)
ClassOf(g) == Classes(g, g.n, [s \in GStates(g) |-> 1])
MinimalSize(g) == LET k == TLCEval(ClassOf(g)) IN Cardinality({k[s] : s \in GReach(g)})
(* ---- observations *)
RECURSIVE NodeOf(_, _, _)
NodeOf(t, i, w) ==      \* node of a trace, -1 if it was never observed
  IF w = <<>> THEN i
  ELSE LET J == {j \in 1..Len(t.par) : t.par[j] = i /\ t.a[j] = Head(w).a /\ t.o[j] = Head(w).o}
       IN IF J = {} THEN -1 ELSE NodeOf(t, CHOOSE j \in J : TRUE, Tail(w))
Kids(t, i, a) == {j \in 1..Len(t.par) : t.par[j] = i /\ t.a[j] = a}
SumC(t, J) == FoldLeft(LAMBDA x, j : x + t.c[j], 0, SetToSeq(J))
(* states of the model after every observed trace *)
After(g, t) == FoldLeft(LAMBDA q, j : Append(q, Step(g, IF t.par[j] = 0 THEN {g.init} ELSE q[t.par[j]], t.a[j], t.o[j])),
                        <<>>, [j \in 1..Len(t.par) |-> j])
AccessOk(m, p, s) == RunSet(m, {m.init}, [i \in 1..Len(p) |-> p[i].a], [i \in 1..Len(p) |-> p[i].o]) = {s}
Backed(t, i, m, s) == \A e \in {e \in Edges(m) : e.s = s} : \E j \in Kids(t, i, e.a) : t.o[j] = e.o
Shown(t, i, m, s) == \A j \in {j \in 1..Len(t.par) : t.par[j] = i} : \E e \in Edges(m) : e.s = s /\ e.a = t.a[j] /\ e.o = t.o[j]
(* probabilities are the relative frequencies among the observations *)
Close(p, n, tot) == LET d == p * tot - n * 1000000 IN d <= 2 * tot /\ d >= -(2 * tot)
Weighted(t, i, m, s) == \A e \in {e \in Edges(m) : e.s = s} :
   LET K == {j \in Kids(t, i, e.a) : \E f \in Edges(m) : f.s = s /\ f.a = e.a /\ f.o = t.o[j]} tot == SumC(t, K) IN
   tot > 2000 \/ Close(e.p, SumC(t, {j \in K : t.o[j] = e.o}), tot)
NoStrays(m) == m.init \in GStates(m) /\ \A e \in Edges(m) : e.t \in GStates(m) /\ e.a \in 1..m.k
Common(c) ==
  IF ~c.cls THEN "WrongModelClass"
  ELSE IF ~NoStrays(c.M) THEN "IllFormed"
  ELSE IF ~c.alpha THEN "AlphabetChanged"
  ELSE IF Len(c.M.tr) # Cardinality({<<e.s, e.a, e.o, e.t>> : e \in Edges(c.M)}) THEN "DuplicateTransition"
  ELSE IF c.size # c.M.n THEN "WrongSizeReported"
  ELSE IF c.lim > 0 /\ c.hyps > c.lim THEN "RoundLimitIgnored"
  ELSE IF c.rounds # c.hyps /\ ~(c.abstracted /\ c.lim > 0 /\ c.rounds = c.hyps + 1) THEN "WrongRoundCount"
  ELSE IF c.lq # c.rq THEN "WrongQueryCount"
  ELSE "ok"
OnfsmVerdict(c) ==
  LET com == Common(c) nodes == TLCEval([s \in GStates(c.M) |-> NodeOf(c.tree, 0, c.pre[s])])
      minimal == TLCEval(MinimalSize(c.T)) IN
  IF com # "ok" THEN com
  ELSE IF ~Observable(c.M) THEN "NotObservable"
  ELSE IF GReach(c.M) # GStates(c.M) THEN "UnreachableState"
  ELSE IF \E s \in GStates(c.M) : ~AccessOk(c.M, c.pre[s], s) THEN "WrongAccessTrace"
  ELSE IF \E s \in GStates(c.M) : nodes[s] = -1 THEN "StateNeverObserved"
  ELSE IF \E s \in GStates(c.M) : ~Backed(c.tree, nodes[s], c.M, s) THEN "TransitionNeverObserved"
  ELSE IF c.checked /\ \E q \in Range(After(c.M, c.tree)) : q = {} THEN "ObservationImpossible"
  ELSE IF c.stoch /\ \E s \in GStates(c.M) : ~Weighted(c.tree, nodes[s], c.M, s) THEN "WrongFrequency"
  ELSE IF c.exact /\ ~TraceIncluded(c.T, c.M) THEN "TraceMissing"
  ELSE IF c.exact /\ c.M.n > minimal THEN "TooManyStates"
  ELSE IF c.exact /\ c.M.n = minimal /\ ~TraceIncluded(c.M, c.T) THEN "TraceAdded"
  ELSE "ok"
(* Output abstraction: states are told apart by abstract outputs only, steps    *)
(* keep the concrete outputs.  The model may allow more than the system but      *)
(* never less, and only ever steps that were observed.                           *)
AbstractVerdict(c) ==
  LET com == Common(c) after == TLCEval(After(c.M, c.tree)) minimal == TLCEval(MinimalSize(c.T))
      at(i) == IF i = 0 THEN {c.M.init} ELSE after[i] IN
  IF com # "ok" THEN com
  ELSE IF \E s \in GStates(c.M) : s \notin RunSet(c.M, {c.M.init}, [i \in 1..Len(c.pre[s]) |-> c.pre[s][i].a], [i \in 1..Len(c.pre[s]) |-> c.pre[s][i].o])
    THEN "WrongAccessTrace"
  ELSE IF \E s \in GStates(c.M) : NodeOf(c.tree, 0, c.pre[s]) = -1 THEN "StateNeverObserved"
  ELSE IF \E e \in Edges(c.M) : ~\E j \in 1..Len(c.tree.par) : c.tree.a[j] = e.a /\ c.tree.o[j] = e.o /\ e.s \in at(c.tree.par[j]) /\ e.t \in after[j]
    THEN "TransitionNeverObserved"
  ELSE IF c.exact /\ ~TraceIncluded(c.T, c.M) THEN "TraceMissing"
  ELSE IF c.exact /\ c.M.n > minimal THEN "TooManyStates"
  ELSE IF c.identity /\ ~Observable(c.M) THEN "NotObservable"
  ELSE IF c.identity /\ c.exact /\ c.M.n = minimal /\ ~TraceIncluded(c.M, c.T) THEN "TraceAdded"
  ELSE "ok"
=============================================================================
