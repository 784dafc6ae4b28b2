-------------------------------- MODULE Convert -------------------------------
(* Conversions between model classes must preserve behaviour and structure.     *)
EXTENDS Graph
RECURSIVE SumP(_, _)
SumP(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumP(q, i - 1)
(* ---- weighted bisimulation on the disjoint union of two graphs: state i of h  *)
(* is g.n + i.  rep maps every state to the representative of its class.         *)
UEdges(g, h) == g.tr \o [i \in 1..Len(h.tr) |-> [h.tr[i] EXCEPT !.s = @ + g.n, !.t = @ + g.n]]
Weight(es, rep, s, a, o, c) == SumP([i \in 1..Len(es) |-> IF es[i].s = s /\ es[i].a = a /\ es[i].o = o /\ rep[es[i].t] = c THEN es[i].p ELSE 0], Len(es))
Sig(es, rep, s) == {<<e.a, e.o, rep[e.t], Weight(es, rep, s, e.a, e.o, rep[e.t])>> : e \in {e \in {es[i] : i \in 1..Len(es)} : e.s = s}}
Near(x, y) == x - y <= 2 /\ y - x <= 2
SameSig(x, y) == /\ \A u \in x : \E v \in y : u[1] = v[1] /\ u[2] = v[2] /\ u[3] = v[3] /\ Near(u[4], v[4])
                 /\ \A u \in y : \E v \in x : u[1] = v[1] /\ u[2] = v[2] /\ u[3] = v[3] /\ Near(u[4], v[4])
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Lump(es, rep, n) == LET sg == [s \in 1..n |-> Sig(es, rep, s)]
                    IN [s \in 1..n |-> MinS({t \in 1..n : rep[t] = rep[s] /\ SameSig(sg[s], sg[t])})]
RECURSIVE LumpFix(_, _, _)
LumpFix(es, rep, n) == LET r2 == Lump(es, rep, n) IN IF r2 = rep THEN rep ELSE LumpFix(es, r2, n)
Bisimilar(g, h) == LET n == g.n + h.n
                       rep == LumpFix(UEdges(g, h), [s \in 1..n |-> 1], n)
                   IN rep[g.init] = rep[g.n + h.init]
InRange(h) == h.init \in 1..h.n /\ \A e \in Edges(h) : e.s \in 1..h.n /\ e.t \in 1..h.n

SmmToMdpVerdict(c) ==
  IF ~InRange(c.h) THEN "StrayTransition"
  ELSE IF \E i, j \in 1..c.h.n : i < j /\ c.hids[i] = c.hids[j] THEN "StatesShareIdentifier"
  ELSE IF c.g.n + c.h.n <= 20 /\ ~Bisimilar(c.g, c.h) THEN "NotEquivalent"
  ELSE IF ~SameGraph(c.g, c.after) \/ ~SameInputs(c.g, c.known) THEN "OriginalChanged"
  ELSE IF ~c.cls THEN "WrongClass" ELSE "ok"
MdpToMcVerdict(c) ==
  LET es == SelectSeq(c.g.tr, LAMBDA e : e.a = c.a)
      want == [c.g EXCEPT !.tr = [i \in 1..Len(es) |-> [es[i] EXCEPT !.a = 1]]]
  IN IF ~c.cls THEN "WrongClass"
     ELSE IF c.ids # c.hids THEN "IdentifiersChanged"
     ELSE IF c.h.init # c.g.init THEN "InitialStateChanged"
     ELSE IF c.h.lab # c.g.lab THEN "LabelChanged"
     ELSE IF ~SameEdges(want, c.h) THEN "TransitionsChanged"
     ELSE IF ~SameGraph(c.g, c.after) \/ ~SameInputs(c.g, c.known) THEN "OriginalChanged"
     ELSE IF c.shared > 0 THEN "StatesShared" ELSE "ok"
DfaOf(x) == CASE x = "bool:True" -> "bool:True" [] x = "bool:False" -> "bool:False" [] x = "NoneType:None" -> "bool:False" [] OTHER -> "?"
MooreToDfaVerdict(c) ==
  LET bad == \E s \in GStates(c.g) : DfaOf(c.g.lab[s]) = "?"
      want == [c.g EXCEPT !.tr = [i \in 1..Len(c.g.tr) |-> [c.g.tr[i] EXCEPT !.o = DfaOf(@)]]]
  IN IF bad THEN (IF c.refused THEN "ok" ELSE "UnrestrictedOutputsConverted")
     ELSE IF c.refused THEN "ConversionRefused"
     ELSE IF ~c.cls THEN "WrongClass"
     ELSE IF c.ids # c.hids THEN "IdentifiersChanged"
     ELSE IF c.h.init # c.g.init THEN "InitialStateChanged"
     ELSE IF \E s \in GStates(c.g) : c.h.lab[s] # DfaOf(c.g.lab[s]) THEN "LabelChanged"
     ELSE IF ~SameEdges(want, c.h) THEN "TransitionsChanged"
     ELSE IF ~SameGraph(c.g, c.after) \/ ~SameInputs(c.g, c.known) THEN "OriginalChanged"
     ELSE IF c.shared > 0 THEN "StatesShared" ELSE "ok"
(* PRISM text, parsed: initial location, upper bound, commands [a, s, ts] with ts a *)
(* sequence of [t, pr], and labels [name, locs]; locations are numbered from 0 in   *)
(* any order: place[s] (chosen by the labels and commands) is not fixed, so the     *)
(* parsed graph is compared up to renaming by weighted bisimulation with the        *)
(* locations' label sets as outputs, plus a count of locations and transitions.     *)
PrismVerdict(c) ==
  LET h == c.h
      dup == \E i, j \in 1..Len(h.tr) : i < j /\ h.tr[i].s = h.tr[j].s /\ h.tr[i].a = h.tr[j].a /\ h.tr[i].cmd # h.tr[j].cmd
  IN IF c.upper < c.g.n - 1 THEN "LocationRangeTooSmall"
     ELSE IF h.init \notin 1..c.g.n \/ \E e \in Edges(h) : e.s \notin 1..c.g.n \/ e.t \notin 1..c.g.n THEN "LocationOutOfRange"
     ELSE IF Len(h.tr) # Len(c.g.tr) THEN "TransitionCountChanged"
     ELSE IF dup THEN "CommandSplit"
     ELSE IF h.lab[h.init] # c.g.lab[c.g.init] THEN "InitialLabelChanged"
     ELSE IF {<<h.lab[s], Cardinality({t \in 1..h.n : h.lab[t] = h.lab[s]})>> : s \in 1..h.n}
             # {<<c.g.lab[s], Cardinality({t \in 1..c.g.n : c.g.lab[t] = c.g.lab[s]})>> : s \in 1..c.g.n} THEN "LabelsChanged"
     ELSE IF ~Bisimilar(c.g, [h EXCEPT !.tr = [i \in 1..Len(h.tr) |-> [s |-> h.tr[i].s, a |-> h.tr[i].a, o |-> h.tr[i].o, t |-> h.tr[i].t, p |-> h.tr[i].p, pr |-> h.tr[i].pr]]]) THEN "NotEquivalent"
     ELSE IF ~SameGraph(c.orig, c.after) \/ ~SameInputs(c.orig, c.known) THEN "OriginalChanged"
     ELSE IF ~c.file THEN "FileDiffers" ELSE "ok"
ConvVerdict(c) == CASE c.e = "smm2mdp" -> SmmToMdpVerdict(c)
                    [] c.e = "mdp2mc" -> MdpToMcVerdict(c)
                    [] c.e = "moore2dfa" -> MooreToDfaVerdict(c)
                    [] c.e = "prism" -> PrismVerdict(c)
                    [] OTHER -> "UnknownCall"
=============================================================================
