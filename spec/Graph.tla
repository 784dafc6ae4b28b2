-------------------------------- MODULE Graph --------------------------------
(* Labelled transition graphs, the common view of every model class.           *)
(*  g.n states 1..n, g.init, g.lab[s] state label (string, "" if none),         *)
(*  g.eps TRUE if a run answers the state label before any input,              *)
(*  g.tr  sequence of [s, a, o, t, p]: from s on input a, output o to t with    *)
(*        weight p (integer, 1 where there are no probabilities)               *)
EXTENDS Integers, Sequences, FiniteSets
GStates(g) == 1..g.n
Edges(g) == {g.tr[i] : i \in 1..Len(g.tr)}
Opts(g, s, a) == {<<e.o, e.t>> : e \in {e \in Edges(g) : e.s = s /\ e.a = a /\ e.p > 0}}
Det(g) == \A e, f \in Edges(g) : (e.s = f.s /\ e.a = f.a) => e = f
Observable(g) == \A e, f \in Edges(g) : (e.s = f.s /\ e.a = f.a /\ e.o = f.o) => e.t = f.t
(* all states a run on w answering outs may be in *)
RECURSIVE RunSet(_, _, _, _)
RunSet(g, S, w, outs) ==
  IF w = <<>> THEN S
  ELSE RunSet(g, {p[2] : p \in {p \in UNION {Opts(g, s, Head(w)) : s \in S} : p[1] = Head(outs)}}, Tail(w), Tail(outs))
(* a run can get stuck on w: some undefined input on some run *)
RECURSIVE AfterSet(_, _, _)
AfterSet(g, S, w) == IF w = <<>> THEN S ELSE AfterSet(g, {p[2] : p \in UNION {Opts(g, s, Head(w)) : s \in S}}, Tail(w))
Defined(g, s, w) == \A i \in 1..Len(w) : \A t \in AfterSet(g, {s}, SubSeq(w, 1, i-1)) : Opts(g, t, w[i]) # {}
PossiblyDefined(g, s, w) == AfterSet(g, {s}, w) # {}
GSucc(g, S) == {e.t : e \in {e \in Edges(g) : e.s \in S /\ e.p > 0}}
RECURSIVE GReachFrom(_, _, _)
GReachFrom(g, seen, front) == IF front = {} THEN seen
   ELSE LET new == GSucc(g, front) \ seen IN GReachFrom(g, seen \cup new, new)
GReach(g) == GReachFrom(g, {g.init}, {g.init})
(* inputs a model reports as defined: pairs of state and input *)
SameInputs(g, q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)} = {<<e.s, e.a>> : e \in Edges(g)}
(* the same model: same initial state, labels and transitions with weights, as  *)
(* multisets; states are identified by their index                              *)
CountIn(q, e) == Cardinality({i \in 1..Len(q) : q[i] = e})
SameEdges(g, h) == Len(g.tr) = Len(h.tr) /\ \A i \in 1..Len(g.tr) : CountIn(g.tr, g.tr[i]) = CountIn(h.tr, g.tr[i])
SameGraph(g, h) == g.n = h.n /\ g.init = h.init /\ g.lab = h.lab /\ SameEdges(g, h)
=============================================================================
