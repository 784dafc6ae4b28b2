-------------------------------- MODULE TestGen --------------------------------
(* Test cases recorded while an oracle runs.  The oracle resets (ends a test and   *)
(* starts the next), steps, asks whole words, and may end its last test or not.   *)
(* cases is what a generator must have collected when the oracle is done.          *)
EXTENDS Graph, Fsm
VARIABLES ops, cur, cases
tgvars == <<ops, cur, cases>>
Keep(cs, w) == IF w = <<>> THEN cs ELSE Append(cs, w)
TGInit == ops = <<>> /\ cur = <<>> /\ cases = <<>>
Do(o) == ops' = Append(ops, o)
Reset == Do(<<"reset">>) /\ cases' = Keep(cases, cur) /\ cur' = <<>>
StepOp(a) == Do(<<"step", a>>) /\ cur' = Append(cur, a) /\ UNCHANGED cases
QueryOp(w) == Do(<<"query", w>>) /\ cases' = Append(Keep(cases, cur), w) /\ cur' = <<>>
PostOp == Do(<<"post">>) /\ cases' = Keep(cases, cur) /\ cur' = <<>>
Open(o) == o # <<>> /\ o[Len(o)][1] \in {"reset", "step"}
TGNext(K, W) == \/ Reset \/ (Open(ops) /\ \E a \in K : StepOp(a)) \/ (~Open(ops) /\ \E w \in W : QueryOp(w)) \/ (Open(ops) /\ PostOp)
(* the tests of a whole run, from the operations alone *)
RECURSIVE TestsOf(_, _)
TestsOf(o, w) == IF o = <<>> THEN Keep(<<>>, w)
  ELSE LET h == Head(o) IN
       CASE h[1] = "step" -> TestsOf(Tail(o), Append(w, h[2]))
         [] h[1] = "query" -> Keep(<<>>, w) \o <<h[2]>> \o TestsOf(Tail(o), <<>>)
         [] OTHER -> Keep(<<>>, w) \o TestsOf(Tail(o), <<>>)
Collected == Keep(cases, cur)
NoneMissing == Collected = TestsOf(ops, <<>>)
NoEmptyTest == \A i \in 1..Len(cases) : cases[i] # <<>>
(* ---- recorded generations: c.m automaton, c.tests executed, c.res collected ---- *)
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameTests(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
GenCall(c) == LET ws == [i \in 1..Len(c.res) |-> c.res[i].ins] IN
  IF c.scripted /\ ~SameTests(c.tests, TestsOf(c.ops, <<>>)) THEN "oracle run as scripted"
  ELSE IF Len(ws) < Len(c.tests) THEN "no executed test is missing"
  ELSE IF ~SameTests(c.tests, ws) THEN "exactly the executed tests"
  ELSE IF \E i \in 1..Len(c.res) : c.res[i].outs # Trace(c.m, c.m.init, ws[i]) THEN "tests carry the outputs of the automaton"
  ELSE IF c.after # c.m THEN "automaton unchanged" ELSE "ok"
(* ---- statistical model checking: G goal outputs, n steps, uniform inputs ---- *)
(* weights in tenths; D = 10 * number of inputs, GoalW out of D^n runs             *)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE SumE(_, _)
SumE(f, K) == IF K = {} THEN 0 ELSE LET i == CHOOSE i \in K : TRUE IN f[i] + SumE(f, K \ {i})
RECURSIVE GoalW(_, _, _, _)
GoalW(g, G, s, n) == IF n = 0 THEN 0
  ELSE LET K == {i \in 1..Len(g.tr) : g.tr[i].s = s} IN
       SumE([i \in K |-> (g.tr[i].p \div 100000) * (IF g.tr[i].o \in G THEN Pow(10 * g.k, n - 1) ELSE GoalW(g, G, g.tr[i].t, n - 1))], K)
(* states a run of n steps without goal outputs may end in *)
RECURSIVE Avoid(_, _, _, _)
Avoid(g, G, S, n) == IF n = 0 \/ S = {} THEN S ELSE Avoid(g, G, {e.t : e \in {e \in Edges(g) : e.s \in S /\ e.p > 0 /\ e.o \notin G}}, n - 1)
RECURSIVE Within(_, _, _)
Within(g, S, n) == IF n = 0 THEN S ELSE Within(g, S \cup {e.t : e \in {e \in Edges(g) : e.s \in S /\ e.p > 0}}, n - 1)
Unavoidable(g, G, n) == n > 0 /\ Avoid(g, G, {g.init}, n) = {}
Unreachable(g, G, n) == n = 0 \/ ~\E e \in Edges(g) : e.s \in Within(g, {g.init}, n - 1) /\ e.p > 0 /\ e.o \in G
AbsI(x) == IF x < 0 THEN -x ELSE x
SetOf(q) == {q[i] : i \in 1..Len(q)}
SmcCall(c) == LET G == SetOf(c.goals)
                  D == Pow(10 * c.g.k, c.n) IN
  IF ~c.whole \/ c.hits \notin 0..c.num THEN "estimate is a share of the tests"
  ELSE IF Unavoidable(c.g, G, c.n) THEN (IF c.hits = c.num THEN "ok" ELSE "unavoidable goal has probability 1")
  ELSE IF Unreachable(c.g, G, c.n) THEN (IF c.hits = 0 THEN "ok" ELSE "unreachable goal has probability 0")
  ELSE IF c.exact /\ AbsI(c.hits * D - c.num * GoalW(c.g, G, c.g.init, c.n)) > c.slack * D THEN "estimate far from the probability"
  ELSE IF c.after # c.g THEN "automaton unchanged" ELSE "ok"
JudgeT(c) == IF c.op = "gen" THEN GenCall(c) ELSE SmcCall(c)
=============================================================================
