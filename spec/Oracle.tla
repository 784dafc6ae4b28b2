-------------------------------- MODULE Oracle -------------------------------
(* An equivalence oracle as a tester: in one search it executes tests on the  *)
(* system T and either returns a counterexample to hypothesis H or nothing.    *)
(* Soundness and the coverage each kind of oracle promises.                    *)
EXTENDS Fsm, SequencesExt
NoCex == <<0>>

(* ------------------------------ soundness ------------------------------- *)
AgreeOn(H, T, w) == Answer(H, H.init, w) = Answer(T, T.init, w)
Genuine(H, T, w) == /\ \A i \in 1..Len(w) : w[i] \in Inputs(H)
                    /\ LastOut(H, H.init, w) # LastOut(T, T.init, w)
(* an initial output can only be seen by the empty test *)
NoEarlierDifference(H, T, w) ==
  w = <<>> \/ LET u == SubSeq(w, 1, Len(w) - 1) IN Trace(H, H.init, u) = Trace(T, T.init, u)
SoundVerdict(H, T, tests, res) ==
  IF res # NoCex
  THEN IF ~(\A i \in 1..Len(res) : res[i] \in Inputs(H)) THEN "CexOutsideAlphabet"
       ELSE IF ~Genuine(H, T, res) THEN "SpuriousCounterexample"
       ELSE IF ~NoEarlierDifference(H, T, res) THEN "CexHasEarlierDifference" ELSE "ok"
  ELSE IF \E i \in 1..Len(tests) : tests[i] # <<>> /\ ~AgreeOn(H, T, tests[i]) THEN "ObservedDifferenceIgnored"
  ELSE "ok"

(* --------------------------- fault coverage ----------------------------- *)
(* H shows the initial output of T (learners ask for it) but is wrong          *)
WrongAfterStart(H, T) == ~Equiv(H, T) /\ Eps(H, H.init) = Eps(T, T.init)
RECURSIVE DiffWithin(_, _, _, _)
DiffWithin(H, T, P, L) ==   \* some pair in P shows different outputs on a word of length 1..L
  IF L = 0 THEN FALSE
  ELSE IF \E p \in P : \E a \in Inputs(H) : Out(H, p[1], a) # Out(T, p[2], a) THEN TRUE
  ELSE DiffWithin(H, T, PairSucc(H, T, P), L - 1)
WrongWithin(H, T, L) == DiffWithin(H, T, {<<H.init, T.init>>}, L)

CeilDiv(a, b) == (a + b - 1) \div b
StartsWith(t, u) == Len(u) <= Len(t) /\ SubSeq(t, 1, Len(u)) = u
CountTests(tests, P(_)) == Cardinality({i \in 1..Len(tests) : P(tests[i])})
StateAt(H, t, i) == After(H, H.init, SubSeq(t, 1, i))

(* the test passes through the states of c in this order, before its tail *)
RECURSIVE Visits(_, _, _, _, _)
Visits(H, t, lim, c, from) ==
  IF c = <<>> THEN TRUE
  ELSE \E i \in from..lim : StateAt(H, t, i) = Head(c) /\ Visits(H, t, lim, Tail(c), i)
KTuples(n, k) == {c \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => c[i] # c[j]}
Perms(c) == {d \in [1..Len(c) -> {c[i] : i \in 1..Len(c)}] : \A i, j \in 1..Len(c) : i # j => d[i] # d[j]}

StronglyConnected(H) == \A s \in States(H) : ReachS(H, s) = States(H)

(* What an oracle remembers over the searches of its life:                      *)
(*  left  tests (steps for the random walk) it may still spend                   *)
(*  hist  all tests of earlier searches, seen  all access words met so far        *)
SumLen(tests) == FoldLeft(LAMBDA x, t : x + Len(t), 0, tests)
Whole(o, p) == CASE o \in {"randomword", "cachebased"} -> p.walks [] o = "randomwalk" -> p.steps [] OTHER -> 0
Spent(o, tests) == CASE o \in {"randomword", "cachebased"} -> Len(tests) [] o = "randomwalk" -> SumLen(tests) [] OTHER -> 0
Budgeted(o) == o \in {"randomword", "cachebased", "randomwalk"}
FreshMemory(o, p) == [left |-> Whole(o, p), hist |-> <<>>, seen |-> {}]
(* reset: the owner asked for a fresh start before this search                  *)
Prepared(o, p, mem, pre, reset) ==
  [left |-> IF reset /\ Budgeted(o) /\ p.renew THEN Whole(o, p) ELSE mem.left, hist |-> mem.hist,
   seen |-> mem.seen \cup {pre[q] : q \in 1..Len(pre)}]
Remembered(o, p, mem, tests, res) ==
  [left |-> IF ~Budgeted(o) THEN 0 ELSE IF res # NoCex /\ p.renew THEN Whole(o, p) ELSE mem.left - Spent(o, tests),
   hist |-> mem.hist \o tests, seen |-> mem.seen]
(* limits that hold for every search, successful or not                         *)
LimitVerdict(o, p, mem, tests) ==
  LET all == Len(mem.hist) + Len(tests) IN
  CASE Budgeted(o) -> IF Spent(o, tests) > mem.left THEN "BudgetExceeded" ELSE "ok"
    [] o = "stateprefix" -> IF p.max # 0 /\ all > p.max THEN "BudgetExceeded"
                            ELSE IF all > p.walks * Cardinality(mem.seen) THEN "TooManyWalks" ELSE "ok"
    [] o = "rwmethod" -> IF all > p.walks * Cardinality(mem.seen) THEN "TooManyWalks" ELSE "ok"
    [] OTHER -> "ok"
(* walks from the state with access word u: complete ones, or cut short by a difference *)
WalksFrom(tests, u, len) == CountTests(tests, LAMBDA t : IF StartsWith(t, u) THEN Len(t) <= Len(u) + len ELSE StartsWith(u, t))

(* what was executed in a search that found nothing                            *)
CoverVerdict(o, p, H, T, pre, tests, round, mem) ==
  CASE o = "stateprefix" ->
         LET all == mem.hist \o tests IN
            IF p.max # 0 /\ Len(all) = p.max THEN "ok"
            ELSE IF Len(all) < H.n * p.walks \/ (mem.hist = <<>> /\ Len(tests) # H.n * p.walks) THEN "WrongNumberOfTests"
            ELSE IF \E q \in States(H) : WalksFrom(all, pre[q], p.len) < p.walks THEN "StateNotCovered"
            ELSE IF \E i \in 1..Len(tests) : ~\E q \in States(H) : StartsWith(tests[i], pre[q]) /\ Len(tests[i]) = Len(pre[q]) + p.len
                 THEN "WrongTestLength"
            ELSE IF mem.hist = <<>> /\ \E q \in States(H) :
                   CountTests(tests, LAMBDA t : StartsWith(t, pre[q]) /\ Len(t) = Len(pre[q]) + p.len) < p.walks
                 THEN "StateNotCovered"
            ELSE "ok"
    [] o = "rwmethod" ->
         LET all == mem.hist \o tests IN
         IF Len(all) < H.n * p.walks \/ (mem.hist = <<>> /\ Len(tests) # H.n * p.walks) THEN "WrongNumberOfTests"
         ELSE IF \E q \in States(H) : CountTests(all, LAMBDA t : StartsWith(t, pre[q]) \/ StartsWith(pre[q], t)) < p.walks THEN "StateNotCovered"
         ELSE IF mem.hist = <<>> /\ \E q \in States(H) : CountTests(tests, LAMBDA t : StartsWith(t, pre[q]) /\ Len(t) > Len(pre[q])) < p.walks
              THEN "StateNotCovered" ELSE "ok"
    [] o = "kwaystate" ->
         IF round # 1 THEN "ok"
         ELSE IF H.n = 1 THEN (IF Len(tests) < p.len \/ \E i \in 1..Len(tests) : Len(tests[i]) # p.len THEN "WrongTests" ELSE "ok")
         ELSE IF ~StronglyConnected(H) \/ H.n < p.k THEN "ok"
         ELSE IF \E c \in KTuples(H.n, p.k) :
                   ~\E i \in 1..Len(tests) : Len(tests[i]) >= p.len /\
                       \E d \in (IF p.perm THEN {c} ELSE Perms(c)) : Visits(H, tests[i], Len(tests[i]) - p.len, d, 0)
              THEN "TupleNotCovered" ELSE "ok"
    [] o = "kwaytrans" ->
         IF p.maxsteps # 0 THEN "ok"
         ELSE LET covered == UNION {{<<StateAt(H, tests[i], j), SubSeq(tests[i], j + 1, j + p.k)>> :
                                      j \in 0..(Len(tests[i]) - p.k)} : i \in 1..Len(tests)}
              IN IF \E q \in Reach(H), w \in Words(H.k, p.k) : <<q, w>> \notin covered THEN "TransitionTupleNotCovered" ELSE "ok"
    [] o = "provided" ->
         IF \E j \in 1..Len(p.words) : p.words[j] \notin Range(tests) \cup Range(mem.hist) THEN "SequenceNotExecuted" ELSE "ok"
    [] o = "pac" ->
         IF Len(tests) # CeilDiv(p.e * (p.lnd + round * p.ln2), 1000000) THEN "WrongNumberOfTests"
         ELSE IF \E i \in 1..Len(tests) : Len(tests[i]) < p.min \/ Len(tests[i]) > p.max THEN "WrongTestLength" ELSE "ok"
    [] o = "randomword" ->
         IF Len(tests) # mem.left THEN "WrongNumberOfTests"
         ELSE IF \E i \in 1..Len(tests) : Len(tests[i]) < p.min \/ Len(tests[i]) > p.max THEN "WrongTestLength" ELSE "ok"
    [] o = "randomwalk" ->
         IF SumLen(tests) # mem.left THEN "WrongNumberOfSteps" ELSE "ok"
    [] o = "transfocus" ->
         IF Len(tests) # p.walks \/ \E i \in 1..Len(tests) : Len(tests[i]) # p.len THEN "WrongTests"
         ELSE IF p.mode = "mixed" THEN "ok"
         ELSE LET Loops(q) == {a \in Inputs(H) : H.d[q][a] = q}
                  Want(q) == IF p.mode = "same" THEN (IF Loops(q) # {} THEN Loops(q) ELSE Inputs(H))
                             ELSE (IF Loops(q) # Inputs(H) THEN Inputs(H) \ Loops(q) ELSE Inputs(H))
              IN IF \E i \in 1..Len(tests) : \E j \in 1..Len(tests[i]) : tests[i][j] \notin Want(StateAt(H, tests[i], j - 1))
                 THEN "WrongFocus" ELSE "ok"
    [] o = "cachebased" ->
         IF Len(tests) # mem.left THEN "WrongNumberOfTests"
         ELSE IF \E i \in 1..Len(tests) : ~\E u \in Range(p.words) \cup Range(mem.hist) : StartsWith(tests[i], u) THEN "NotFromCache"
         ELSE "ok"
    [] OTHER -> "ok"

(* promises that hold for every search                                         *)
CompleteVerdict(o, p, H, T, res) ==
  CASE o \in {"wmethod", "wp"} ->
         IF res = NoCex /\ Minimal(H) /\ AllReachable(H) /\ H.n <= p.m /\ MinSize(T) <= p.m /\ WrongAfterStart(H, T)
         THEN "FaultMissed" ELSE "ok"
    [] o = "bfs" -> IF res = NoCex /\ WrongWithin(H, T, p.depth) THEN "DifferenceMissed" ELSE "ok"
    [] o = "perfect" -> IF res = NoCex /\ ~Equiv(H, T) THEN "DifferenceMissed" ELSE "ok"
    [] OTHER -> "ok"
=============================================================================
