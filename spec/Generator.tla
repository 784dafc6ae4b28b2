------------------------------- MODULE Generator -------------------------------
(* Random model generators (aalpy/utils/AutomatonGenerators.py).               *)
(* Deterministic models: outputs are drawn first (every output once before any *)
(* is repeated; a DFA gets exactly the requested number of accepting states),  *)
(* then transitions until every state is reachable, and with minimality        *)
(* requested the whole drawing is repeated a bounded number of times.          *)
EXTENDS Fsm
CONSTANTS Kind,    \* "dfa", "moore" or "mealy"
          N, K, O, \* states, inputs, outputs
          Acc,     \* accepting states of a DFA
          Ensure,  \* minimality requested
          Limit    \* number of drawings before giving up
VARIABLES phase, lab, d, tries
gvars == <<phase, lab, d, tries>>
Mealy == Kind = "mealy"
Slots == IF Mealy THEN N * K ELSE N
MinN(a, b) == IF a < b THEN a ELSE b
Image(f) == {f[x] : x \in DOMAIN f}
(* outputs that may be drawn, as a sequence of slots *)
Labellings == IF Kind = "dfa" THEN {f \in [1..N -> {"F", "T"}] : Cardinality({s \in 1..N : f[s] = "T"}) = Acc}
              ELSE {f \in [1..Slots -> 1..O] : Cardinality(Image(f)) = MinN(O, Slots)}
Wirings == {f \in [1..N -> [1..K -> 1..N]] : UNION {Image(f[s]) : s \in 1..N} = 1..N}
Machine(f, l) == [mealy |-> Mealy, n |-> N, init |-> 1, k |-> K, d |-> f, extra |-> FALSE,
                  o |-> IF Mealy THEN [s \in 1..N |-> [a \in 1..K |-> l[(s - 1) * K + a]]] ELSE l]
GInit == phase = "outputs" /\ lab = <<>> /\ d = <<>> /\ tries = 1
DrawOutputs == phase = "outputs" /\ phase' = "wire" /\ lab' \in Labellings /\ UNCHANGED <<d, tries>>
Wire == phase = "wire" /\ phase' = "check" /\ d' \in Wirings /\ UNCHANGED <<lab, tries>>
WireWell == Wire /\ AllReachable(Machine(d', lab))
Again == phase = "check" /\ ~AllReachable(Machine(d, lab)) /\ phase' = "wire" /\ UNCHANGED <<lab, d, tries>>
Retry == /\ phase = "check" /\ AllReachable(Machine(d, lab)) /\ Ensure /\ ~Minimal(Machine(d, lab)) /\ tries < Limit
         /\ phase' = "outputs" /\ tries' = tries + 1 /\ UNCHANGED <<lab, d>>
Finish == /\ phase = "check" /\ AllReachable(Machine(d, lab)) /\ (Ensure /\ ~Minimal(Machine(d, lab)) => tries = Limit)
          /\ phase' = "done" /\ UNCHANGED <<lab, d, tries>>
GNext == DrawOutputs \/ Wire \/ Again \/ Retry \/ Finish
GSpec == GInit /\ [][GNext]_gvars /\ WF_gvars(GNext) /\ SF_gvars(WireWell)
Result == Machine(d, lab)
DoneWell == phase = "done" => Complete(Result) /\ AllReachable(Result) /\ Result.n = N
DoneLabels == phase = "done" => lab \in Labellings
DoneMinimal == phase = "done" /\ Ensure /\ tries < Limit => Minimal(Result)
Ends == <>(phase = "done")

(* ---------------------------- judging real models ---------------------------- *)
G == INSTANCE Graph
Out1(m) == IF m.mealy THEN {m.o[s][a] : s \in States(m), a \in Inputs(m)} ELSE {m.o[s] : s \in States(m)}
JSlots(m) == IF m.mealy THEN m.n * m.k ELSE m.n
(* c.m projected machine, c.kind, c.want = [n, k, outs, acc (-1: not requested), minimal], c.cls, c.ids, c.pre (prefixes, <<>> if not requested) *)
PrefixOK(m, s, w) == (\A i \in 1..Len(w) : w[i] \in Inputs(m)) /\ After(m, m.init, w) = s /\ Len(w) = Dist(m, m.init, s)
JudgeDetGen(c) ==
  LET m == c.m IN
  IF ~c.cls THEN "WrongClass"
  ELSE IF m.n # c.want.n THEN "WrongNumberOfStates"
  ELSE IF c.ids # c.want.n THEN "AmbiguousIdentifiers"
  ELSE IF m.k # c.want.k \/ ~Complete(m) THEN "NotComplete"
  ELSE IF ~AllReachable(m) THEN "UnreachableState"
  ELSE IF ~(Out1(m) \subseteq {c.want.outs[i] : i \in 1..Len(c.want.outs)}) THEN "ForeignOutput"
  ELSE IF c.kind # "dfa" /\ Cardinality(Out1(m)) # MinN(Len(c.want.outs), JSlots(m)) THEN "WrongNumberOfOutputs"
  ELSE IF c.want.acc >= 0 /\ Cardinality({s \in States(m) : m.o[s] = c.want.outs[1]}) # c.want.acc THEN "WrongNumberOfAcceptingStates"
  ELSE IF c.want.minimal /\ ~Minimal(m) THEN "NotMinimal"
  ELSE IF c.want.ensure /\ ~c.warned /\ ~Minimal(m) THEN "NotMinimalNoWarning"
  ELSE IF Len(c.pre) > 0 /\ \E s \in States(m) : ~PrefixOK(m, s, c.pre[s]) THEN "WrongPrefix"
  ELSE IF ~c.kept THEN "ArgumentsChanged"
  ELSE "ok"
(* c.g graph; alternatives of a state and input are told apart by their output *)
Alts(g, s, a) == {i \in 1..Len(g.tr) : g.tr[i].s = s /\ g.tr[i].a = a}
RECURSIVE SumP(_, _)
SumP(g, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN g.tr[i].p + SumP(g, S \ {i})
Weighted(kind) == kind \in {"mdp", "smm", "mc"}
GOut(g) == IF g.lab[1] # "" THEN {g.lab[s] : s \in 1..g.n} ELSE {g.tr[i].o : i \in 1..Len(g.tr)}
BagOf(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
Weights(g, S) == LET xs == {g.tr[i].p : i \in S} IN [x \in xs |-> Cardinality({i \in S : g.tr[i].p = x})]
JudgeStoGen(c) ==
  LET g == c.g
      pairs == {p \in (1..g.n) \X (1..g.k) : TRUE}
      last(p) == c.kind = "mc" /\ Alts(g, p[1], p[2]) = {}
      live == {p \in pairs : ~last(p)} IN
  IF ~c.cls THEN "WrongClass"
  ELSE IF g.n # c.want.n THEN "WrongNumberOfStates"
  ELSE IF c.ids # c.want.n THEN "AmbiguousIdentifiers"
  ELSE IF g.init \notin 1..g.n \/ \E i \in 1..Len(g.tr) : g.tr[i].t \notin 1..g.n THEN "ForeignState"
  ELSE IF g.k # c.want.k \/ \E i \in 1..Len(g.tr) : g.tr[i].a \notin 1..g.k THEN "ForeignInput"
  ELSE IF \E p \in live : Alts(g, p[1], p[2]) = {} THEN "UndefinedInput"
  ELSE IF c.kind = "mc" /\ Cardinality({p \in pairs : last(p)}) > 1 THEN "StatesWithoutTransitions"
  ELSE IF Weighted(c.kind) /\ \E i \in 1..Len(g.tr) : g.tr[i].p <= 0 THEN "ImpossibleTransition"
  ELSE IF Weighted(c.kind) /\ \E p \in live : LET x == SumP(g, Alts(g, p[1], p[2])) IN x < 999990 \/ x > 1000010 THEN "ProbabilitiesDoNotSumToOne"
  ELSE IF \E p \in live : \E i, j \in Alts(g, p[1], p[2]) : i # j /\ g.tr[i].o = g.tr[j].o THEN "AlternativesShareOutput"
  ELSE IF c.kind # "onfsm" /\ G!GReach(g) # 1..g.n THEN "UnreachableState"
  ELSE IF c.kind # "mc" /\ ~(GOut(g) \subseteq {c.want.outs[i] : i \in 1..Len(c.want.outs)}) THEN "ForeignOutput"
  ELSE IF c.kind = "mdp" /\ Cardinality(GOut(g)) # MinN(Len(c.want.outs), g.n) THEN "WrongNumberOfOutputs"
  ELSE IF c.kind = "smm" /\ Cardinality(GOut(g)) # MinN(Len(c.want.outs), g.n * g.k) THEN "WrongNumberOfOutputs"
  ELSE IF c.kind = "onfsm" /\ c.want.alts = 1 /\ \E p \in live : Cardinality(Alts(g, p[1], p[2])) # 1 THEN "WrongNumberOfAlternatives"
  ELSE IF c.kind = "onfsm" /\ c.want.alts = 2 /\ Len(c.want.outs) > 1 /\ \E p \in live : Cardinality(Alts(g, p[1], p[2])) < 2 THEN "WrongNumberOfAlternatives"
  ELSE IF Len(c.want.dists) > 0 /\ \E p \in live : Weights(g, Alts(g, p[1], p[2])) \notin {BagOf(c.want.dists[i]) : i \in 1..Len(c.want.dists)}
       THEN "ForeignDistribution"
  ELSE IF ~c.kept THEN "ArgumentsChanged"
  ELSE "ok"
(* c.v pushdown structure as in Pushdown.tla, letters in the order internal, call, return *)
Internals(v) == 1..v.ni
Calls(v) == v.ni + 1..v.ni + v.nc
Returns(v) == v.ni + v.nc + 1..v.ni + v.nc + v.nr
JudgeVpaGen(c) ==
  LET v == c.v
      E == 1..Len(v.e) IN
  IF ~c.cls THEN "WrongClass"
  ELSE IF v.n # c.want.n THEN "WrongNumberOfStates"
  ELSE IF c.ids # c.want.n THEN "AmbiguousIdentifiers"
  ELSE IF v.init \notin 1..v.n \/ \E i \in E : v.e[i].t \notin 1..v.n \/ v.e[i].s \notin 1..v.n THEN "ForeignState"
  ELSE IF c.al # c.want.al THEN "WrongAlphabet"
  ELSE IF \E i \in E : v.e[i].a \notin Internals(v) \cup Returns(v) THEN "ForeignTransition"
  ELSE IF \E s \in 1..v.n : \E a \in Internals(v) : Cardinality({i \in E : v.e[i].s = s /\ v.e[i].a = a}) # 1 THEN "InternalNotDeterministicAndComplete"
  ELSE IF \E s \in 1..v.n : \E a \in Returns(v) : \E q \in 1..v.n : \E x \in Calls(v) :
             Cardinality({i \in E : v.e[i].s = s /\ v.e[i].a = a /\ v.e[i].gs = q /\ v.e[i].gc = x}) # 1 THEN "ReturnNotDeterministicAndComplete"
  ELSE IF \E i \in E : v.e[i].a \in Returns(v) /\ (v.e[i].gs \notin 1..v.n \/ v.e[i].gc \notin Calls(v)) THEN "ForeignGuard"
  ELSE IF c.want.accp = 0 /\ \E s \in 1..v.n : v.acc[s] THEN "AcceptingAgainstWish"
  ELSE IF c.want.accp = 1 /\ \E s \in 1..v.n : ~v.acc[s] THEN "NotAcceptingAgainstWish"
  ELSE "ok"
JudgeG(c) == IF c.e = "det" THEN JudgeDetGen(c) ELSE IF c.e = "vpa" THEN JudgeVpaGen(c) ELSE JudgeStoGen(c)
=============================================================================
