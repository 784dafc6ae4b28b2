---------------------------- MODULE MCStochLearner ----------------------------
(* Every small stochastic system, every multiset of runs up to a bound, every   *)
(* model that can be built from them with the construction of the learner.       *)
EXTENDS StochLearner
CONSTANTS N, O, MaxRuns, MaxLen
K == 1
Out == {ToString(i) : i \in 1..O}
(* support of the one input in every state: a non-empty set of (output, state), one state per output *)
Supp == {f \in [Out -> 0..N] : \E o \in Out : f[o] # 0}
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
Systems == {[n |-> N, init |-> 1, k |-> K, lab |-> [s \in 1..N |-> ""], eps |-> FALSE,
             tr |-> SeqOf({[s |-> s, a |-> 1, o |-> o, t |-> d[s][o], p |-> 1] : s \in 1..N, o \in {o \in Out : TRUE}} \ {e \in [s : 1..N, a : {1}, o : Out, t : {0}, p : {1}] : TRUE})] :
             d \in [1..N -> Supp]}
Traces == UNION {[1..n -> {<<1, o>> : o \in Out}] : n \in 1..MaxLen}
Observed(rs) == UNION {{SubSeq(rs[i].w, 1, j) : j \in 0..Len(rs[i].w)} : i \in 1..Len(rs)} \cup {<<>>}
St == "half"
(* the construction: a set R of access traces, each transition led to some state of R not separated from it *)
Cells(rs, R) == [u \in R |-> Cell(rs, u, 1)]
Closed(rs, R) == \A u \in R : \A o \in DOMAIN Cell(rs, u, 1) :
    LET w == Append(u, <<1, o>>) IN \E r \in R : r = w \/ ~HalfDiff(Cell(rs, w, 1), Cell(rs, r, 1))
Pick(rs, R, w) == IF w \in R THEN w ELSE CHOOSE r \in R : ~HalfDiff(Cell(rs, w, 1), Cell(rs, r, 1))
Build(rs, R) ==
  LET q == SeqOf(R)
      ix(w) == CHOOSE i \in 1..Len(q) : q[i] = w
      m == Len(q) + 1
      es(i) == LET c == Cell(rs, q[i], 1) IN
        IF Total(c) = 0 THEN {[s |-> i, a |-> 1, o |-> "chaos", t |-> m, num |-> 1, den |-> 1]}
        ELSE {[s |-> i, a |-> 1, o |-> o, t |-> ix(Pick(rs, R, Append(q[i], <<1, o>>))), num |-> c[o], den |-> Total(c)] : o \in DOMAIN c}
      all == UNION {es(i) : i \in 1..Len(q)}
      chaos == \E e \in all : e.t = m
      full == IF chaos THEN all \cup {[s |-> m, a |-> 1, o |-> "chaos", t |-> m, num |-> 1, den |-> 1]} ELSE all
  IN [n |-> IF chaos THEN m ELSE Len(q), init |-> ix(<<>>), chaos |-> IF chaos THEN m ELSE 0,
      lab |-> [i \in 1..m |-> ""], acc |-> q \o <<<<>>>>, tr |-> SeqOf(full)]
Ctx == [mdp |-> FALSE, st |-> St, nc |-> 1, sep |-> 0]
Init == \E g \in Systems : Begin(g)
Next == Len(runs) < MaxRuns /\ \E w \in Traces : Sample(w)
Spec == Init /\ [][Next]_slvars
Candidates == {R \in SUBSET Observed(runs) : <<>> \in R /\ Cardinality(R) <= 3}
(* whatever states the learner picks, the construction satisfies the contract *)
ConstructionSound == \A R \in Candidates : Closed(runs, R) =>
   LET M == Build(runs, R) IN
   IF M.chaos = 0 THEN PresentVerdict(sys, runs, M, Ctx) = "ok" ELSE ReturnVerdict(sys, runs, M, Ctx) = "ok"
(* no chaos once every state is covered *)
NoChaos == \A R \in Candidates : Closed(runs, R) /\ (\A u \in R : Total(Cell(runs, u, 1)) > 0) => Build(runs, R).chaos = 0
(* the separation test is symmetric and never separates equal cells *)
TestLaws == \A u, v \in Observed(runs) : LET c == Cell(runs, u, 1) d == Cell(runs, v, 1) IN
   /\ HalfDiff(c, d) = HalfDiff(d, c) /\ ~HalfDiff(c, c) /\ HoeffdingDiff(c, d, 0) = HoeffdingDiff(d, c, 0) /\ ~HoeffdingDiff(c, c, 0)
=============================================================================
