------------------------------ MODULE MCPushdown ------------------------------
(* Every small deterministic system over one internal, one call and one return   *)
(* letter: what it accepts is balanced, death is final, and the summary based     *)
(* language equivalence agrees with running all words up to length L.             *)
EXTENDS Pushdown, TLC
CONSTANTS N, L, Sev
VARIABLES g, w
mcvars == <<conf, g, w>>
Opt == 0..N
Tab == [1..N -> Opt]
Sys(ti, tc, tr, acc) ==
  LET edge(s, a, t, gs, gc) == [s |-> s, a |-> a, t |-> t, gs |-> gs, gc |-> gc]
      all == [i \in 1..N |-> edge(i, 1, ti[i], 0, 0)] \o
             (IF Sev THEN <<>> ELSE [i \in 1..N |-> edge(i, 2, tc[i], 0, 2)]) \o
             (IF Sev THEN [j \in 1..N * N |-> LET i == ((j - 1) \div N) + 1
                                                   q == ((j - 1) % N) + 1 IN edge(i, 3, tr[i][q], q, 2)]
              ELSE [i \in 1..N |-> edge(i, 3, tr[i][1], 0, 2)])
  IN [n |-> N, init |-> 1, acc |-> acc, ni |-> 1, nc |-> 1, nr |-> 1, sevpa |-> Sev, e |-> SelectSeq(all, LAMBDA x : x.t # 0),
      ti |-> [i \in 1..N |-> <<ti[i]>>], tc |-> [i \in 1..N |-> <<IF Sev THEN <<0, 0>> ELSE <<tc[i], IF tc[i] = 0 THEN 0 ELSE 2>>>>],
      tr |-> [i \in 1..N |-> <<tr[i]>>]]
Systems == {Sys(ti, tc, tr, acc) : ti \in Tab, tc \in (IF Sev THEN {[i \in 1..N |-> 0]} ELSE Tab),
            tr \in [1..N -> IF Sev THEN Tab ELSE [1..1 -> Opt]], acc \in [1..N -> BOOLEAN]}
Init == g \in Systems /\ w = <<>> /\ conf = Conf0(g)
Next == Len(w) < L /\ \E a \in Letters(g) : w' = Append(w, a) /\ conf' = PMove(g, conf, a) /\ UNCHANGED g
Spec == Init /\ [][Next]_mcvars
TablesAgree == w = <<>> => TablesMatch(g)
RunIsSteps == conf = PRun(g, Conf0(g), w)
AcceptedIsBalanced == Accepting(g, conf) => Balanced(CallSet(g), RetSet(g), w)
DeathIsFinal == [][conf.s = Dead => conf'.s = Dead]_mcvars
StackIsDepth == conf.s # Dead => Len(conf.st) = Depth(CallSet(g), RetSet(g), w)
(* a system that differs in one accepting state: equivalent iff no run shows it *)
Flip == [g EXCEPT !.acc[N] = ~@]
RECURSIVE WordsUpTo(_)
WordsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET p == WordsUpTo(n - 1) IN p \cup {Append(u, a) : <<u, a>> \in {u \in p : Len(u) = n - 1} \X (1..3)}
AllWords == WordsUpTo(L)
EquivExact == (w = <<1>> /\ ~g.acc[N]) => (SameLanguage(g, Flip) = (\A u \in AllWords : Accepts(g, u) = Accepts(Flip, u)))
=============================================================================
