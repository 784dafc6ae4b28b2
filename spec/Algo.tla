--------------------------------- MODULE Algo ---------------------------------
(* What the functions that inspect or transform automata must answer.           *)
EXTENDS Graph, Fsm
(* ---- comparison of possibly partial machines: same defined words, same outputs *)
PDef(m, s, a) == m.d[s][a] \in States(m)
PairBad(m1, m2, p) ==
  \/ ~m1.mealy /\ m1.o[p[1]] # m2.o[p[2]]
  \/ \E a \in Inputs(m1) : \/ PDef(m1, p[1], a) # PDef(m2, p[2], a)
                           \/ m1.mealy /\ PDef(m1, p[1], a) /\ m1.o[p[1]][a] # m2.o[p[2]][a]
PPairSucc(m1, m2, P) == {<<m1.d[q[1][1]][q[2]], m2.d[q[1][2]][q[2]]>> :
                           q \in {q \in P \X Inputs(m1) : PDef(m1, q[1][1], q[2]) /\ PDef(m2, q[1][2], q[2])}}
RECURSIVE PEqFrom(_, _, _, _)
PEqFrom(m1, m2, seen, front) ==
  IF front = {} THEN TRUE
  ELSE IF \E p \in front : PairBad(m1, m2, p) THEN FALSE
  ELSE LET new == PPairSucc(m1, m2, front) \ seen IN PEqFrom(m1, m2, seen \cup new, new)
PEqStates(m1, s, m2, t) == PEqFrom(m1, m2, {<<s, t>>}, {<<s, t>>})
PEquiv(m1, m2) == PEqStates(m1, m1.init, m2, m2.init)
(* everything a run on w shows: outputs as far as it is defined *)
RECURSIVE Shown(_, _, _)
Shown(m, s, w) == IF w = <<>> THEN <<>>
                  ELSE IF ~PDef(m, s, Head(w)) THEN <<"undefined">>
                  ELSE <<Out(m, s, Head(w))>> \o Shown(m, m.d[s][Head(w)], Tail(w))
DiffOn(m1, s, m2, t, w) == Eps(m1, s) # Eps(m2, t) \/ Shown(m1, s, w) # Shown(m2, t, w)
ShownDiff(m1, s, m2, t, w) == Shown(m1, s, w) # Shown(m2, t, w)
NoWord == <<0>>
IsWord(m, w) == \A i \in 1..Len(w) : w[i] \in Inputs(m)
(* every two-letter word shows a difference: any test at all finds one *)
Glaring(m1, m2) == \A w \in Words(m1.k, 2) : ShownDiff(m1, m1.init, m2, m2.init, w)

BisimVerdict(c) ==
  LET e == PEquiv(c.m1, c.m2)
  IN IF c.eq # e THEN (IF e THEN "EqualCalledDifferent" ELSE "DifferentCalledEqual")
     ELSE IF c.op # e THEN "EqualityOperatorWrong"
     ELSE IF e /\ c.cex # NoWord THEN "DifferenceInvented"
     ELSE IF ~e /\ c.cex = NoWord THEN "DifferenceNotReturned"
     ELSE IF ~e /\ ~IsWord(c.m1, c.cex) THEN "DifferenceNotAWord"
     ELSE IF ~e /\ ~DiffOn(c.m1, c.m1.init, c.m2, c.m2.init, c.cex) THEN "DifferenceNotReal"
     ELSE IF c.after1 # c.m1 \/ c.after2 # c.m2 THEN "ComparisonChangedAutomaton" ELSE "ok"
CompareVerdict(c) ==
  IF \E i \in 1..Len(c.res) : ~IsWord(c.m1, c.res[i]) THEN "DifferenceNotAWord"
  ELSE IF \E i \in 1..Len(c.res) : ~ShownDiff(c.m1, c.m1.init, c.m2, c.m2.init, c.res[i]) THEN "DifferenceNotReal"
  ELSE IF Cardinality({c.res[i] : i \in 1..Len(c.res)}) # Len(c.res) THEN "DifferenceRepeated"
  ELSE IF Len(c.res) > c.num THEN "TooManyDifferences"
  ELSE IF \E i \in 1..(Len(c.res) - 1) : Len(c.res[i]) > Len(c.res[i + 1]) THEN "DifferencesNotSorted"
  ELSE IF c.res = <<>> /\ c.num > 0 /\ Glaring(c.m1, c.m2) THEN "NoDifferenceFound"
  ELSE IF c.after1 # c.m1 \/ c.after2 # c.m2 THEN "ComparisonChangedAutomaton" ELSE "ok"

(* ---- minimisation and separation (complete machines) *)
MinimizeVerdict(c) ==
  IF ~InitOK(c.h) THEN "InitialStateLost"
  ELSE IF ~Complete(c.h) THEN "MinimizedNotComplete"
  ELSE IF ~Equiv(c.h, c.m) THEN "MinimizedNotEquivalent"
  ELSE IF c.h.n # NumClasses(c.m) THEN "MinimizedWrongSize"
  ELSE IF NumClasses(c.h) # c.h.n THEN "NotMinimized"
  ELSE IF \E s \in States(c.h) : c.pref[s] # NoWord /\ After(c.h, c.h.init, c.pref[s]) # s THEN "PrefixWrong"
  ELSE IF \E s \in States(c.h) : c.pref[s] = NoWord /\ s \in Reach(c.h) THEN "PrefixMissing" ELSE "ok"
IsMinimalVerdict(c) == IF c.res # (Total(c.m) /\ Minimal(c.m)) THEN "MinimalityWrong"
                       ELSE IF c.h # c.m THEN "AutomatonChanged" ELSE "ok"
DistVerdict(c) ==
  LET cl == Classes(c.m) IN
  IF c.res = NoWord THEN (IF cl[c.s] # cl[c.t] THEN "SeparableCalledEquivalent" ELSE "ok")
  ELSE IF ~IsWord(c.m, c.res) THEN "SequenceNotAWord"
  ELSE IF Answer(c.m, c.s, c.res) = Answer(c.m, c.t, c.res) THEN "SequenceDoesNotSeparate" ELSE "ok"
Separates(m, W, s, t) == \E w \in W : Answer(m, s, w) # Answer(m, t, w)
SetOf(q) == {q[i] : i \in 1..Len(q)}
SuffixClosedNE(W) == \A w \in W : \A i \in 1..Len(w) : SubSeq(w, i, Len(w)) \in W
CharSetVerdict(c) ==
  LET W == SetOf(c.res) IN
  IF c.init # c.init2 THEN "ArgumentChanged"
  ELSE IF c.h # c.m THEN "AutomatonChanged"
  ELSE IF ~Minimal(c.m) THEN (IF c.none THEN "ok" ELSE "SetForNonMinimalAutomaton")
  ELSE IF c.none THEN "NoSetForMinimalAutomaton"
  ELSE IF \E w \in W : ~IsWord(c.m, w) THEN "SequenceNotAWord"
  ELSE IF \E s, t \in States(c.m) : s < t /\ ~Separates(c.m, W, s, t) THEN "StatesNotSeparated"
  ELSE IF ~(SetOf(c.init) \subseteq W) THEN "InitialSequencesDropped"
  ELSE IF c.closed /\ SuffixClosedNE(SetOf(c.init)) /\ ~SuffixClosedNE(W) THEN "NotSuffixClosed" ELSE "ok"
SameVerdict(c) == (* asking for a pair of equivalent states *)
  LET cl == Classes(c.m) IN
  IF c.none THEN (IF Minimal(c.m) THEN "ok" ELSE "EquivalentPairMissed")
  ELSE IF c.s = c.t \/ cl[c.s] # cl[c.t] THEN "PairNotEquivalent" ELSE "ok"

(* ---- paths, prefixes, connectivity (partial machines) *)
PathVerdict(m, s, t, w) ==
  LET d == Dist(m, s, t) IN
  IF w = NoWord THEN (IF d = -1 THEN "ok" ELSE "PathMissed")
  ELSE IF ~IsWord(m, w) \/ AfterP(m, s, w) # t THEN "PathWrong"
  ELSE IF Len(w) # d THEN "PathNotShortest" ELSE "ok"
FirstBad(q) == IF \E i \in 1..Len(q) : q[i] # "ok" THEN q[CHOOSE i \in 1..Len(q) : q[i] # "ok" /\ \A j \in 1..(i-1) : q[j] = "ok"] ELSE "ok"
StructVerdict(c) ==
  LET m == c.m
      ps == [i \in 1..Len(c.paths) |-> PathVerdict(m, c.paths[i].s, c.paths[i].t, c.paths[i].w)]
      pf == [s \in 1..m.n |-> PathVerdict(m, m.init, s, c.pref[s])]
      used == {a \in Inputs(m) : \E s \in States(m) : PDef(m, s, a)}
  IN IF FirstBad(ps) # "ok" THEN FirstBad(ps)
     ELSE IF FirstBad(pf) # "ok" THEN "Prefix" \o FirstBad(pf)
     ELSE IF c.foreign # NoWord THEN "PathToForeignState"
     ELSE IF c.strong # (\A s \in States(m) : ReachS(m, s) = States(m)) THEN "ConnectivityWrong"
     ELSE IF SetOf(c.alpha) # used \/ Len(c.alpha) # Cardinality(used) THEN "AlphabetWrong"
     ELSE IF c.complete # (\A s \in States(m) : \A a \in used : PDef(m, s, a)) THEN "CompletenessWrong"
     ELSE IF \E s \in States(m) : SetOf(c.same[s]) # {a \in Inputs(m) : m.d[s][a] = s}
                                  \/ SetOf(c.diff[s]) # {a \in Inputs(m) : PDef(m, s, a) /\ m.d[s][a] # s} THEN "LoopsWrong"
     ELSE IF \E s \in States(m) : c.byid[s] # s THEN "StateByIdWrong"
     ELSE IF c.noid # 0 THEN "StateByIdInvented"
     ELSE IF c.size # m.n THEN "SizeWrong"
     ELSE IF c.h # m THEN "AutomatonChanged" ELSE "ok"

(* ---- input completion of any labelled graph: g before, h after *)
GAlpha(g) == {e.a : e \in Edges(g)}
At(g, s, a) == {e \in Edges(g) : e.s = s /\ e.a = a}
CompletionVerdict(c) ==
  LET g == c.g
      h == c.h
      gaps == {x \in GStates(g) \X GAlpha(g) : At(g, x[1], x[2]) = {}}
      sink == g.n + 1
      tgt(s) == IF c.mode = "sink" THEN sink ELSE s
      lab(s) == IF s = sink THEN c.sinklab ELSE g.lab[s]
      fresh(s, a) == [s |-> s, a |-> a, o |-> IF c.epsout = "" THEN lab(tgt(s)) ELSE c.epsout, t |-> tgt(s), p |-> 1000000, pr |-> "1.0"]
  IN IF ~c.sameobj THEN "CompletionReturnedOther"
     ELSE IF gaps = {} THEN (IF SameGraph(g, h) THEN "ok" ELSE "CompleteAutomatonChanged")
     ELSE IF h.init # g.init THEN "InitialStateChanged"
     ELSE IF h.n # (IF c.mode = "sink" THEN sink ELSE g.n) THEN "WrongNumberOfStates"
     ELSE IF \E s \in GStates(g) : h.lab[s] # g.lab[s] THEN "LabelChanged"
     ELSE IF c.mode = "sink" /\ h.lab[sink] # c.sinklab THEN "SinkLabelWrong"
     ELSE IF \E s \in GStates(g), a \in GAlpha(g) : At(g, s, a) # {} /\ At(h, s, a) # At(g, s, a) THEN "BehaviourChanged"
     ELSE IF \E x \in gaps : At(h, x[1], x[2]) # {fresh(x[1], x[2])} THEN "GapWronglyFilled"
     ELSE IF c.mode = "sink" /\ \E a \in GAlpha(g) : At(h, sink, a) # {fresh(sink, a)} THEN "SinkWrong"
     ELSE IF \E e \in Edges(h) : e.s \notin 1..h.n \/ e.a \notin GAlpha(g) THEN "StrayTransition"
     ELSE IF Len(h.tr) # Cardinality(Edges(h)) + (Len(g.tr) - Cardinality(Edges(g))) THEN "TransitionsRepeated"
     ELSE IF ~c.complete THEN "StillIncomplete" ELSE "ok"

AlgoVerdict(c) ==
  IF c.err # "" THEN c.err
  ELSE CASE c.e = "bisim" -> BisimVerdict(c)
         [] c.e = "compare" -> CompareVerdict(c)
         [] c.e = "minimize" -> MinimizeVerdict(c)
         [] c.e = "isminimal" -> IsMinimalVerdict(c)
         [] c.e = "dist" -> DistVerdict(c)
         [] c.e = "charset" -> CharSetVerdict(c)
         [] c.e = "same" -> SameVerdict(c)
         [] c.e = "struct" -> StructVerdict(c)
         [] c.e = "completion" -> CompletionVerdict(c)
         [] OTHER -> "UnknownEvent"
=============================================================================
