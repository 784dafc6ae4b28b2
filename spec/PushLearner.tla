------------------------------ MODULE PushLearner ------------------------------
(* Learning a visibly pushdown system with a teacher: hypotheses are complete     *)
(* 1-SEVPAs (a transition on every internal letter and for every pop of a symbol  *)
(* some state pushed, unless the alphabet excludes the pair) that grow, are never *)
(* larger than the number of congruence classes of the language, and explain the   *)
(* last counterexample; the result accepts the language.                          *)
EXTENDS Pushdown, TLC, SequencesExt
VARIABLES T, phase, hyp, cex, rounds
lvars == <<T, phase, hyp, cex, rounds>>
NoWord == <<0>>
NoSys == [n |-> 0]
(* effects of balanced words: functions from control states to control states *)
Ident(g) == TLCEval([s \in 1..g.n |-> s])
At(f, s) == IF s = Dead THEN Dead ELSE f[s]
ThenInt(g, f, a) == TLCEval([s \in 1..g.n |-> IntMove(g, f[s], a)])
Nest(g, f, c, h, r) == TLCEval([s \in 1..g.n |-> LET m == CallMove(g, f[s], c) IN RetMove(g, At(h, m[1]), r, m[2])])
IntSet(g) == {a \in Letters(g) : IsInt(g, a)}
GrowF(g, F) == TLCEval(F \cup {ThenInt(g, p[1], p[2]) : p \in F \X IntSet(g)}
                         \cup {Nest(g, q[1], q[2], q[3], q[4]) : q \in F \X CallSet(g) \X F \X RetSet(g)})
RECURSIVE Close(_, _)
Close(g, F) == LET N == GrowF(g, F) IN IF N = F THEN F ELSE Close(g, N)
Effects(g) == Close(g, {Ident(g)})
(* coarsest congruence that respects acceptance; blocks are named by numbers *)
Number(sigs, x) == CHOOSE i \in 1..Len(sigs) : sigs[i] = x
Renumber(sig) == TLCEval([f \in 1..Len(sig) |-> CHOOSE h \in 1..f : sig[h] = sig[f] /\ \A i \in 1..h-1 : sig[i] # sig[f]])
RECURSIVE Stable(_, _, _, _)
Stable(I, X, b, n) ==
  LET m == Len(b)
      sig == TLCEval([f \in 1..m |-> <<b[f], [a \in 1..Len(I[f]) |-> b[I[f][a]]],
                        [q \in 1..Len(X[f]) |-> [h \in 1..m |-> <<b[X[f][q][h]], b[X[h][q][f]]>>]]>>])
      nb == Renumber(sig)
      k == Cardinality({nb[f] : f \in 1..m})
  IN IF k = n THEN n ELSE Stable(I, X, nb, k)
NumClasses(g) ==
  LET F == SetToSeq(Effects(g))
      m == Len(F)
      pos(x) == Number(F, x)
      CR == SetToSeq(CallSet(g) \X RetSet(g))
      I == TLCEval([f \in 1..m |-> [a \in 1..g.ni |-> pos(ThenInt(g, F[f], a))]])
      X == TLCEval([f \in 1..m |-> [q \in 1..Len(CR) |-> [h \in 1..m |-> pos(Nest(g, F[f], CR[q][1], F[h], CR[q][2]))]]])
      b == Renumber(TLCEval([f \in 1..m |-> F[f][g.init] # Dead /\ g.acc[F[f][g.init]]]))
  IN Stable(I, X, b, Cardinality({b[f] : f \in 1..m}))
(* what a hypothesis must satisfy *)
WellFormedEdge(g, x) == /\ x.a \in Letters(g) /\ x.t \in 1..g.n
                        /\ (IsInt(g, x.a) => x.gs = 0 /\ x.gc = 0)
                        /\ ~IsCall(g, x.a)
                        /\ (IsRet(g, x.a) => x.gs \in 1..g.n /\ x.gc \in CallSet(g))
Shape(H, excl, closed) ==
  IF ~(H.init \in 1..H.n) THEN "InitialStateMissing"
  ELSE IF \E x \in PEdges(H) : ~WellFormedEdge(H, x) THEN "MalformedTransition"
  ELSE IF ~TablesMatch(H) THEN "Nondeterministic"
  ELSE IF closed /\ \E s \in 1..H.n : \E a \in IntSet(H) : IntMove(H, s, a) = Dead THEN "IncompleteModel"
  ELSE IF closed /\ \E s, p \in 1..H.n : \E c \in CallSet(H) : \E r \in RetSet(H) : <<c, r>> \notin excl /\ RetMove(H, s, r, <<p, c>>) = Dead THEN "IncompleteModel"
  ELSE "ok"
(* a reported error state is rejecting and never left *)
ErrorStateVerdict(H, e) ==
  IF e = 0 THEN "ok"
  ELSE IF e < 0 \/ e > H.n THEN "UnknownErrorState"
  ELSE IF H.acc[e] THEN "AcceptingErrorState"
  ELSE IF \E x \in PEdges(H) : x.s = e /\ x.t # e THEN "ErrorStateLeft"
  ELSE IF \E x \in PEdges(H) : x.gs = e /\ x.t # e THEN "ErrorStateLeftByReturn"
  ELSE "ok"
HypVerdict(t, classes, prev, c, H, excl) ==
  IF Shape(H, excl, TRUE) # "ok" THEN Shape(H, excl, TRUE)
  ELSE IF H.n <= prev.n THEN "NoProgress"
  ELSE IF H.n > classes THEN "MoreStatesThanClasses"
  ELSE IF c # NoWord /\ Accepts(H, c) # Accepts(t, c) THEN "CounterexampleNotExplained"
  ELSE "ok"
(* access sequences lead to their states *)
AccessOK(M, pre) == Len(pre) = M.n /\ \A s \in 1..M.n : PRun(M, Conf0(M), pre[s]) = [s |-> s, st |-> <<>>]
ResultVerdict(t, classes, M, pre) ==
  IF Shape(M, {}, FALSE) # "ok" THEN Shape(M, {}, FALSE)
  ELSE IF ~SameLanguage(t, M) THEN "NotEquivalent"
  ELSE IF M.n \notin {classes, classes - 1} THEN "NotMinimal"
  ELSE IF ~AccessOK(M, pre) THEN "WrongAccessSequence"
  ELSE "ok"
Begin(t) == T = t /\ phase = "learn" /\ hyp = NoSys /\ cex = NoWord /\ rounds = 0
Present(H) == phase = "learn" /\ hyp' = H /\ phase' = "asked" /\ rounds' = rounds + 1 /\ UNCHANGED <<T, cex>>
CounterExample(w) == phase = "asked" /\ Accepts(hyp, w) # Accepts(T, w) /\ cex' = w /\ phase' = "learn" /\ UNCHANGED <<T, hyp, rounds>>
Confirm == phase = "asked" /\ phase' = "done" /\ UNCHANGED <<T, hyp, cex, rounds>>
=============================================================================
