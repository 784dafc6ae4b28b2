----------------------------- MODULE StochLearner -----------------------------
(* Sampling-based learning of MDPs and stochastic Mealy machines.             *)
(* The learner collects a multiset of runs of the system and presents models   *)
(* whose states are observed runs (their access traces) and whose transitions  *)
(* carry the observed relative frequencies.  How it chooses the runs and the   *)
(* states is left open; what a presented model must satisfy is fixed here.     *)
(*  traces: sequences of <<input, output>>;  runs: sequence of [w, c]           *)
(*  model M: n, init, lab, chaos (state number, 0 none), acc (traces, by state)  *)
(*           tr: sequence of [s, a, o, t, num, den], probability num/den         *)
EXTENDS Graph, TLC
VARIABLES sys, runs, model, phase
slvars == <<sys, runs, model, phase>>

(* ---------- observations ---------- *)
Pre(u, w) == Len(u) <= Len(w) /\ SubSeq(w, 1, Len(u)) = u
RECURSIVE SumC(_, _)
SumC(rs, i) == IF i = 0 THEN 0 ELSE rs[i].c + SumC(rs, i - 1)
Under(rs, u) == SelectSeq(rs, LAMBDA r : Pre(u, r.w))
Freq(rs, u) == LET s == Under(rs, u) IN SumC(s, Len(s))
Longer(rs, n) == SelectSeq(rs, LAMBDA r : Len(r.w) > n)
(* the cell of trace u and input a: the outputs seen and how often *)
OutsAt(us, n, a) == {us[i].w[n + 1][2] : i \in {i \in 1..Len(us) : us[i].w[n + 1][1] = a}}
CountAt(us, n, a, o) == LET s == SelectSeq(us, LAMBDA r : r.w[n + 1] = <<a, o>>) IN SumC(s, Len(s))
Cell(rs, u, a) == LET us == Longer(Under(rs, u), Len(u))
                  IN [o \in OutsAt(us, Len(u), a) |-> CountAt(us, Len(u), a, o)]
RECURSIVE SumF(_, _)
SumF(c, D) == IF D = {} THEN 0 ELSE LET o == CHOOSE o \in D : TRUE IN c[o] + SumF(c, D \ {o})
Total(c) == SumF(c, DOMAIN c)
At(c, o) == IF o \in DOMAIN c THEN c[o] ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x

(* ---------- statistical tests (probabilities in units of 1/10000) ---------- *)
RECURSIVE ISq(_, _)
ISq(x, r) == LET r2 == (r + x \div r) \div 2 IN IF r2 >= r THEN r ELSE ISq(x, r2)
ISqrt(x) == IF x = 0 THEN 0 ELSE ISq(x, x)
Eps(n) == (13581 * 100) \div ISqrt(n * 10000)           \* sqrt(ln(2/0.05) / 2n)
Rel(c, n, o) == (At(c, o) * 10000) \div n
Gap(c, d) == {Abs(Rel(c, Total(c), o) - Rel(d, Total(d), o)) : o \in DOMAIN c \cup DOMAIN d}
Slack == 40
Both(c, d) == Total(c) > 0 /\ Total(d) > 0
HoeffdingDiff(c, d, sl) == Both(c, d) /\ \E g \in Gap(c, d) : g > Eps(Total(c)) + Eps(Total(d)) + sl
(* chi-squared test of homogeneity at level 0.001 (Yates' correction for two      *)
(* outputs with small counts; Hoeffding when no output is shared); sl in per cent *)
Chi2Val(dof) == CASE dof = 1 -> 1083 [] dof = 2 -> 1382 [] dof = 3 -> 1627 [] dof = 4 -> 1847 [] OTHER -> 2052
RECURSIVE SumQ(_, _, _, _)
SumQ(c, d, D, y) == IF D = {} THEN 0 ELSE
  LET o == CHOOSE o \in D : TRUE
      x == 2 * Abs(At(c, o) * Total(d) - At(d, o) * Total(c)) - y * (Total(c) + Total(d))
  IN (x * x) \div (At(c, o) + At(d, o)) + SumQ(c, d, D \ {o}, y)
Chi2Diff(c, d, sl) ==
  LET D == DOMAIN c \cup DOMAIN d
      y == IF Cardinality(D) = 2 /\ \E o \in D : At(c, o) < 5 \/ At(d, o) < 5 THEN 1 ELSE 0 IN
  IF ~Both(c, d) \/ Cardinality(D) = 1 THEN FALSE
  ELSE IF DOMAIN c \cap DOMAIN d = {} THEN HoeffdingDiff(c, d, sl * (Slack \div 2))
  ELSE 100 * SumQ(c, d, D, y) > (4 * Total(c) * Total(d)) * ((Chi2Val(Cardinality(D) - 1) * (100 + sl)) \div 100)
(* "half": the exact test given to the learner by the driver                    *)
HalfDiff(c, d) == Both(c, d) /\ \E o \in DOMAIN c \cup DOMAIN d :
     2 * Abs(At(c, o) * Total(d) - At(d, o) * Total(c)) > Total(c) * Total(d)
(* what the configured test certainly separates / may separate                   *)
Surely(st, nc, c, d) ==
  CASE st = "half" -> HalfDiff(c, d)
    [] st = "normal" -> HoeffdingDiff(c, d, Slack)
    [] st = "classic" -> Total(c) >= nc /\ Total(d) >= nc /\ (DOMAIN c # DOMAIN d \/ HoeffdingDiff(c, d, Slack))
    [] OTHER -> FALSE
Maybe(st, nc, c, d) ==
  CASE st = "half" -> HalfDiff(c, d)
    [] st = "normal" -> HoeffdingDiff(c, d, -Slack)
    [] st = "classic" -> Total(c) >= nc /\ Total(d) >= nc /\ (DOMAIN c # DOMAIN d \/ HoeffdingDiff(c, d, -Slack))
    [] OTHER -> TRUE

(* ---------- models ---------- *)
MStates(M) == 1..M.n
EdgeIx(M, s, a) == {i \in 1..Len(M.tr) : M.tr[i].s = s /\ M.tr[i].a = a}
ToChaos(M, s, a) == \E i \in EdgeIx(M, s, a) : M.tr[i].t = M.chaos
RECURSIVE SumP(_, _, _)
SumP(M, D, u) == IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : TRUE
                 IN (M.tr[i].num * u) \div M.tr[i].den + SumP(M, D \ {i}, u)
Unit == 100000
(* shape of a presented or returned model *)
Shape(M, k) ==
  IF M.init \notin MStates(M) THEN "InitialStateMissing"
  ELSE IF \E i \in 1..Len(M.tr) : M.tr[i].t \notin MStates(M) THEN "DanglingTransition"
  ELSE IF \E i \in 1..Len(M.tr) : M.tr[i].a \notin 1..k THEN "UnknownInput"
  ELSE IF \E s \in MStates(M), a \in 1..k : EdgeIx(M, s, a) = {} THEN "IncompleteModel"
  ELSE IF \E i \in 1..Len(M.tr) : M.tr[i].num <= 0 \/ M.tr[i].num > M.tr[i].den THEN "BadProbability"
  ELSE IF \E s \in MStates(M), a \in 1..k : Abs(SumP(M, EdgeIx(M, s, a), Unit) - Unit) > 60 THEN "ProbabilitiesDoNotSumToOne"
  ELSE IF \E i, j \in 1..Len(M.tr) : i # j /\ M.tr[i].s = M.tr[j].s /\ M.tr[i].a = M.tr[j].a /\ M.tr[i].o = M.tr[j].o
       THEN "AmbiguousOutput"
  ELSE IF M.init = M.chaos THEN "InitialStateIsChaos"
  ELSE "ok"
Labels(g, M, mdp) == mdp => /\ M.lab[M.init] = g.lab[g.init]
                            /\ \A i \in 1..Len(M.tr) : M.tr[i].t # M.chaos => M.lab[M.tr[i].t] = M.tr[i].o
Ins(w) == [i \in 1..Len(w) |-> w[i][1]]
Outs(w) == [i \in 1..Len(w) |-> w[i][2]]
Possible(g, w) == RunSet(g, {g.init}, Ins(w), Outs(w)) # {}
Regular(M) == MStates(M) \ {M.chaos}
(* access traces and transitions were possible in the system *)
Backing(g, M, mdp) ==
  IF \E s \in Regular(M) : ~Possible(g, M.acc[s]) THEN "ImpossibleAccessTrace"
  ELSE IF \E s, q \in Regular(M) : s # q /\ M.acc[s] = M.acc[q] THEN "SameAccessTrace"
  ELSE IF M.acc[M.init] # <<>> THEN "InitialAccessTrace"
  ELSE IF mdp /\ \E s \in Regular(M) : M.acc[s] # <<>> /\ M.acc[s][Len(M.acc[s])][2] # M.lab[s] THEN "WrongStateOutput"
  ELSE IF \E i \in 1..Len(M.tr) : M.tr[i].s # M.chaos /\ M.tr[i].t # M.chaos
             /\ ~Possible(g, Append(M.acc[M.tr[i].s], <<M.tr[i].a, M.tr[i].o>>)) THEN "ImpossibleTransition"
  ELSE "ok"
(* the numbers of a presented model, against the runs made so far *)
Known(st, nc, c) == IF st = "classic" THEN Total(c) >= nc /\ Total(c) > 0 ELSE Total(c) > 0
Numbers(rs, M, k, st, nc) ==
  LET cell == [s \in Regular(M), a \in 1..k |-> Cell(rs, M.acc[s], a)]
      bad(s, a) == LET c == cell[s, a] IN
        IF ~Known(st, nc, c) THEN ~ToChaos(M, s, a) \/ Cardinality(EdgeIx(M, s, a)) # 1
        ELSE \/ ToChaos(M, s, a)
             \/ {M.tr[i].o : i \in EdgeIx(M, s, a)} # DOMAIN c
             \/ \E i \in EdgeIx(M, s, a) : M.tr[i].num * Total(c) # At(c, M.tr[i].o) * M.tr[i].den
  IN IF \E s \in Regular(M), a \in 1..k : ~Known(st, nc, cell[s, a]) /\ ~ToChaos(M, s, a) THEN "TransitionWithoutObservations"
     ELSE IF \E s \in Regular(M), a \in 1..k : Known(st, nc, cell[s, a]) /\ ToChaos(M, s, a) THEN "ChaosDespiteObservations"
     ELSE IF \E s \in Regular(M), a \in 1..k : bad(s, a) THEN "NotTheObservedFrequencies" ELSE "ok"
(* a transition leads to a state the test does not separate from the run it stands for *)
Routing(rs, M, k, st, nc) ==
  IF \A i \in 1..Len(M.tr) : M.tr[i].s = M.chaos \/ M.tr[i].t = M.chaos \/
        LET w == Append(M.acc[M.tr[i].s], <<M.tr[i].a, M.tr[i].o>>) IN
        w = M.acc[M.tr[i].t] \/ \A b \in 1..k : ~Surely(st, nc, Cell(rs, w, b), Cell(rs, M.acc[M.tr[i].t], b))
  THEN "ok" ELSE "WrongTarget"
(* two states are separated by the test on some continuation *)
Suffixes(rs, u, L) == LET us == Longer(Under(rs, u), Len(u)) IN
  UNION {{SubSeq(us[i].w, Len(u) + 1, j) : j \in Len(u)..(IF Len(us[i].w) - 1 < Len(u) + L THEN Len(us[i].w) - 1 ELSE Len(u) + L)} : i \in 1..Len(us)}
Apart(rs, M, k, st, nc, L, s, q) ==
  \E x \in Suffixes(rs, M.acc[s], L) \cap Suffixes(rs, M.acc[q], L), a \in 1..k :
      Maybe(st, nc, Cell(rs, M.acc[s] \o x, a), Cell(rs, M.acc[q] \o x, a))
Separated(rs, M, k, mdp, st, nc, L) ==
  IF L = 0 THEN "ok"
  ELSE IF \A s, q \in Regular(M) : s < q =>
       \/ mdp /\ M.lab[s] # M.lab[q]
       \/ Apart(rs, M, k, st, nc, 1, s, q)
       \/ Apart(rs, M, k, st, nc, L, s, q)
  THEN "ok" ELSE "StatesNotSeparated"
(* the chaos state is there only when something is not known *)
Chaos(M, k) == IF M.chaos # 0 /\ ~\E s \in Regular(M), a \in 1..k : ToChaos(M, s, a) THEN "UselessChaosState" ELSE "ok"

First(seq) == IF \A i \in 1..Len(seq) : seq[i] = "ok" THEN "ok" ELSE seq[CHOOSE i \in 1..Len(seq) : seq[i] # "ok" /\ \A j \in 1..(i-1) : seq[j] = "ok"]
PresentVerdict(g, rs, M, c) ==
  LET sh == Shape(M, g.k) IN
  IF sh # "ok" THEN sh
  ELSE IF M.chaos # 0 THEN "ChaosPresented"
  ELSE IF ~Labels(g, M, c.mdp) THEN "WrongStateOutput"
  ELSE LET b == Backing(g, M, c.mdp) IN
  IF b # "ok" THEN b
  ELSE LET n == Numbers(rs, M, g.k, c.st, c.nc) IN
  IF n # "ok" THEN n
  ELSE LET r == Routing(rs, M, g.k, c.st, c.nc) IN
  IF r # "ok" THEN r
  ELSE Separated(rs, M, g.k, c.mdp, c.st, c.nc, c.sep)
(* a returned model that was not presented: no record of the runs it was built from *)
ReturnVerdict(g, rs, M, c) ==
  LET sh == Shape(M, g.k) IN
  IF sh # "ok" THEN sh
  ELSE IF ~Labels(g, M, c.mdp) THEN "WrongStateOutput"
  ELSE LET b == Backing(g, M, c.mdp) IN
  IF b # "ok" THEN b
  ELSE IF Chaos(M, g.k) # "ok" THEN Chaos(M, g.k)
  ELSE IF \E i \in 1..Len(M.tr) : M.tr[i].s # M.chaos /\ M.tr[i].t # M.chaos /\
             Freq(rs, Append(M.acc[M.tr[i].s], <<M.tr[i].a, M.tr[i].o>>)) = 0 THEN "TransitionWithoutObservations"
  ELSE "ok"
(* reported numbers: v.queries, v.steps learning plus equivalence testing       *)
InfoVerdict(v) ==
  IF v.size # v.n THEN "WrongReportedSize"
  ELSE IF v.steps # v.realsteps THEN "WrongReportedSteps"
  ELSE IF v.queries \notin {v.resets, v.resets - v.readinit} THEN "WrongReportedQueries"
  ELSE IF v.eqasked > v.rounds THEN "WrongReportedRounds"
  ELSE IF v.maxrounds > 0 /\ v.rounds > v.maxrounds THEN "TooManyRounds"
  ELSE IF v.rounds < v.minrounds /\ ~v.mayend THEN "TooFewRounds"
  ELSE "ok"

(* ---------- the learner ---------- *)
Begin(g) == sys = g /\ runs = <<>> /\ model = <<>> /\ phase = "sample"
Sample(w) == /\ phase = "sample" /\ Possible(sys, w)
             /\ runs' = Append(runs, [w |-> w, c |-> 1]) /\ UNCHANGED <<sys, model, phase>>
Present(M, c) == /\ phase = "sample" /\ PresentVerdict(sys, runs, M, c) = "ok"
                 /\ model' = <<M>> /\ phase' = "presented" /\ UNCHANGED <<sys, runs>>
Resume == phase = "presented" /\ phase' = "sample" /\ UNCHANGED <<sys, runs, model>>
=============================================================================
