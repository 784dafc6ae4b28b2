------------------------------- MODULE Learner -------------------------------
(* Active learning with a minimally adequate teacher as a state machine.     *)
(* The learner alternates between presenting a hypothesis and receiving a    *)
(* counterexample; how it computes hypotheses is left open, what a hypothesis *)
(* must satisfy to be presented is fixed by HypVerdict.                       *)
EXTENDS Fsm, TLC
VARIABLES T,       \* the system (a complete deterministic machine)
          phase,   \* "learn" | "asked" | "done"
          hyp,     \* last presented hypothesis
          cex,     \* last counterexample, NoWord if none
          rounds   \* equivalence queries so far
lvars == <<T, phase, hyp, cex, rounds>>

NoWord == <<0>>
NoHyp == [mealy |-> TRUE, n |-> 0, init |-> 0, k |-> 0, d |-> <<>>, o |-> <<>>, extra |-> FALSE]

ShapeVerdict(H) ==
  CASE ~InitOK(H) -> "InitialStateMissing"
    [] ~Closed(H) -> "DanglingTransition"
    [] ~Total(H)  -> "IncompleteModel"
    [] H.extra    -> "UnknownInput"
    [] OTHER -> "ok"

(* acc[q] is the system state the access sequence of hypothesis state q leads to.          *)
(* Grounded: hypothesis states stand for pairwise distinguishable system states, show their *)
(* outputs, and a transition whose true successor is represented leads to its representative *)
GroundedVerdict(t, H, acc) ==
  LET c == Classes(t) IN
  IF ~(\A q \in States(H) : acc[q] \in States(t)) THEN "BadAccessSequence"
  ELSE IF c[acc[H.init]] # c[t.init] THEN "InitialStateMisplaced"
  ELSE IF \E p, q \in States(H) : p # q /\ c[acc[p]] = c[acc[q]] THEN "StatesNotDistinct"
  ELSE IF ~t.mealy /\ \E q \in States(H) : H.o[q] # t.o[acc[q]] THEN "WrongStateOutput"
  ELSE IF t.mealy /\ \E q \in States(H) : H.o[q] # t.o[acc[q]] THEN "WrongTransitionOutput"
  ELSE IF \E q, r \in States(H) : \E a \in Inputs(t) :
             c[t.d[acc[q]][a]] = c[acc[r]] /\ H.d[q][a] # r THEN "WrongTransition"
  ELSE "ok"

(* what every presented hypothesis must satisfy *)
(* (acc = <<>> : the representatives are not observable)                     *)
HypVerdict(t, prev, c, H, acc) ==
  IF ShapeVerdict(H) # "ok" THEN ShapeVerdict(H)
  ELSE IF acc # <<>> /\ GroundedVerdict(t, H, acc) # "ok" THEN GroundedVerdict(t, H, acc)
  ELSE IF H.n <= prev.n THEN "NoProgress"
  ELSE IF H.n > MinSize(t) THEN "MoreStatesThanMinimal"
  ELSE IF c # NoWord /\ LastOut(H, H.init, c) # LastOut(t, t.init, c) THEN "CounterexampleNotExplained"
  ELSE "ok"

GenuineCex(t, H, w) ==
  /\ w # NoWord
  /\ LastOut(H, H.init, w) # LastOut(t, t.init, w)
  /\ w # <<>> => LET u == SubSeq(w, 1, Len(w) - 1) IN Answer(H, H.init, u) = Answer(t, t.init, u)

(* the result: equivalent, minimal, reachable, access sequences correct *)
PrefixesOK(M, pre) == Len(pre) = M.n /\ \A s \in 1..M.n :
      (\A i \in 1..Len(pre[s]) : pre[s][i] \in Inputs(M)) /\ AfterP(M, M.init, pre[s]) = s
ResultVerdict(t, M, pre) ==
  IF ShapeVerdict(M) # "ok" THEN ShapeVerdict(M)
  ELSE IF ~AllReachable(M) THEN "UnreachableState"
  ELSE IF ~Equiv(M, t) THEN "NotEquivalent"
  ELSE IF M.n # MinSize(t) THEN "NotMinimal"
  ELSE IF ~PrefixesOK(M, pre) THEN "WrongAccessSequence"
  ELSE "ok"

Begin(t) == T = t /\ phase = "learn" /\ hyp = NoHyp /\ cex = NoWord /\ rounds = 0

Present(H, acc) ==
  /\ phase = "learn"
  /\ HypVerdict(T, hyp, cex, H, acc) = "ok"
  /\ hyp' = H /\ phase' = "asked" /\ rounds' = rounds + 1
  /\ UNCHANGED <<T, cex>>
CounterExample(w) ==
  /\ phase = "asked"
  /\ GenuineCex(T, hyp, w)
  /\ cex' = w /\ phase' = "learn"
  /\ UNCHANGED <<T, hyp, rounds>>
Confirm ==
  /\ phase = "asked" /\ Equiv(hyp, T)
  /\ phase' = "done"
  /\ UNCHANGED <<T, hyp, cex, rounds>>

(* ---- properties of the design ---- *)
RoundsBounded == rounds <= MinSize(T)
DoneCorrect == phase = "done" => Equiv(hyp, T) /\ hyp.n = MinSize(T)
Termination == <>(phase = "done")
=============================================================================
