-------------------------------- MODULE Passive -------------------------------
(* Passive learning of deterministic models.                                    *)
(*  c.kind "moore" (also DFAs) or "mealy"; c.k inputs 1..k                       *)
(*  c.lab  the data as labelled words [w, o] (traces are expanded to prefixes)   *)
(*  c.words all words of the data (labelled or only passed through)              *)
EXTENDS Fsm
L(c) == {<<c.lab[i].w, c.lab[i].o>> : i \in 1..Len(c.lab)}
PrefSet(w) == {SubSeq(w, 1, i) : i \in 0..Len(w)}
(* nodes of the prefix tree *)
Nodes(c) == {<<>>} \cup UNION {PrefSet(x[1]) : x \in L(c)}
Contradictory(c) == \E x, y \in L(c) : x[1] = y[1] /\ x[2] # y[2]
(* ---- what the data says about the states of a model: state after each node *)
At0(m, w) == AfterP(m, m.init, w)
Pos(c, m) == [w \in Nodes(c) |-> At0(m, w)]
Known(c, m, pos, s, a) ==      \* labels of state s, or of the transition (s, a)
  IF c.kind = "mealy" THEN {x[2] : x \in {x \in L(c) : x[1] # <<>> /\ x[1][Len(x[1])] = a /\ pos[SubSeq(x[1], 1, Len(x[1]) - 1)] = s}}
  ELSE {x[2] : x \in {x \in L(c) : pos[x[1]] = s}}
Used(c, pos) == {<<pos[SubSeq(w, 1, Len(w) - 1)], w[Len(w)]>> : w \in Nodes(c) \ {<<>>}}
(* ---- folding two states of a deterministic structure together: the coarsest    *)
(* consequence of identifying them                                              *)
RECURSIVE CloseRep(_, _, _, _)
CloseRep(n, succ, rep, todo) ==
  IF todo = <<>> THEN rep
  ELSE LET x == rep[todo[1][1]]
           y == rep[todo[1][2]]
       IN IF x = y THEN CloseRep(n, succ, rep, Tail(todo))
          ELSE LET lo == IF x < y THEN x ELSE y
                   hi == IF x < y THEN y ELSE x
                   r2 == [s \in 1..n |-> IF rep[s] = hi THEN lo ELSE rep[s]]
                   kids(r, a) == {succ[s][a] : s \in {s \in 1..n : rep[s] = r /\ succ[s][a] > 0}}
                   both == {a \in DOMAIN succ[1] : kids(x, a) # {} /\ kids(y, a) # {}}
                   RECURSIVE ToSeq(_)
                   ToSeq(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE b \in S : TRUE
                                   IN <<<<CHOOSE z \in kids(x, a) : TRUE, CHOOSE z \in kids(y, a) : TRUE>>>> \o ToSeq(S \ {a})
               IN CloseRep(n, succ, r2, Tail(todo) \o ToSeq(both))
(* could states s and t be identified without contradicting the data? *)
Mergeable(c, m, known, used, s, t) ==
  LET succ == [q \in 1..m.n |-> [a \in 1..m.k |-> IF <<q, a>> \in used THEN m.d[q][a] ELSE 0]]
      rep == CloseRep(m.n, succ, [q \in 1..m.n |-> q], <<<<s, t>>>>)
  IN \A p, q \in 1..m.n : rep[p] = rep[q] =>
       \A a \in 1..m.k : Cardinality(known[p][a] \cup known[q][a]) <= 1 
(* ---- the model is a quotient of the prefix tree that keeps every label *)
QuotientVerdict(c, m, pos, known, used, core) ==
  IF \E w \in Nodes(c) : pos[w] < 1 THEN "DataWordUndefined"
  ELSE IF \E x \in L(c) : ~(c.kind = "mealy" /\ x[1] = <<>>) /\ LastOut(m, m.init, x[1]) # x[2] THEN "LabelNotReproduced"
  ELSE IF {pos[w] : w \in Nodes(c)} # core THEN "StateWithoutData"
  ELSE IF c.complete = "" /\ \E s \in 1..m.n, a \in 1..m.k : m.d[s][a] # 0 /\ <<s, a>> \notin used THEN "TransitionWithoutData"
  ELSE IF m.n > Cardinality(Nodes(c)) + (IF c.complete = "sink" THEN 1 ELSE 0) THEN "LargerThanPrefixTree" ELSE "ok"
(* input completion asked for: only missing transitions are added, to the state   *)
(* itself or to one rejecting sink                                              *)
SeenInputs(c) == {w[Len(w)] : w \in Nodes(c) \ {<<>>}}
CompletionVerdict(c, m, used, sink) ==
  IF \E s \in 1..m.n, a \in SeenInputs(c) : m.d[s][a] < 1 THEN "NotComplete"
  ELSE IF \E s \in 1..m.n, a \in SeenInputs(c) : <<s, a>> \notin used
            /\ m.d[s][a] # (IF c.complete = "sink" THEN sink ELSE s) THEN "WronglyCompleted"
  ELSE IF sink > 0 /\ c.dfa /\ m.o[sink] # "bool:False" THEN "SinkAccepts" ELSE "ok"
DetVerdict(c) ==
  IF Contradictory(c) THEN (IF c.refused THEN "ok" ELSE "ContradictionAbsorbed")
  ELSE IF c.refused THEN "ConsistentDataRefused"
  ELSE LET m == c.m IN
       IF ~InitOK(m) \/ ~Closed(m) \/ m.extra THEN "MalformedModel"
       ELSE LET pos == Pos(c, m)
                core0 == {pos[w] : w \in Nodes(c)}
                sink == IF c.complete = "sink" /\ m.n \notin core0 THEN m.n ELSE 0
                core == (1..m.n) \ {sink}
                used == Used(c, pos)
                known == [s \in 1..m.n |-> [a \in 1..m.k |-> Known(c, m, pos, s, a)]]
                v == QuotientVerdict(c, m, pos, known, used, core)
            IN IF v # "ok" THEN v
               ELSE IF c.complete # "" /\ CompletionVerdict(c, m, used, sink) # "ok" THEN CompletionVerdict(c, m, used, sink)
               ELSE IF c.maximal /\ \E s, t \in core : s < t /\ Mergeable(c, m, known, used, s, t) THEN "MergeableStatesLeft"
               ELSE IF c.after # c.before THEN "DataChanged" ELSE "ok"
(* ---- identification: the data contains a characteristic sample of target c.t   *)
(* c.acc: a shortest access word for every state *)
Labelled(c) == {x[1] : x \in L(c)}
Characteristic(c) ==
  LET m == c.t
      S == {c.acc[s] : s \in 1..m.n}
      K == {<<>>} \cup {Append(u, a) : u \in S, a \in 1..m.k}
      lab == Labelled(c)
      st(w) == After(m, m.init, w)
  IN /\ Minimal(m) /\ Reach(m) = 1..m.n
     /\ \A s \in 1..m.n : At0(m, c.acc[s]) = s /\ Len(c.acc[s]) = Dist(m, m.init, s)
     /\ \A x \in L(c) : (c.kind = "mealy" /\ x[1] = <<>>) \/ LastOut(m, m.init, x[1]) = x[2]
     /\ K \subseteq Nodes(c)
     /\ c.kind = "mealy" => (\A u \in S, a \in 1..m.k : Append(u, a) \in lab)
     /\ c.kind # "mealy" => (\A u \in S : u \in lab)
     /\ \A u \in S, v \in K : st(u) # st(v) =>
          \E x \in lab : /\ Len(x) >= Len(u) /\ SubSeq(x, 1, Len(u)) = u
                         /\ LET e == SubSeq(x, Len(u) + 1, Len(x))
                            IN /\ (v \o e) \in lab
                               /\ (c.kind = "mealy" => e # <<>>)
                               /\ LastOut(m, m.init, x) # LastOut(m, m.init, v \o e)
IdentVerdict(c) ==
  IF ~Characteristic(c) THEN (IF c.must THEN "SampleNotCharacteristic" ELSE "ok")
  ELSE IF c.refused THEN "ConsistentDataRefused"
  ELSE IF ~Complete(c.m) THEN "NotComplete"
  ELSE IF ~Equiv(c.m, c.t) THEN "NotIdentified"
  ELSE IF c.m.n # MinSize(c.t) THEN "NotMinimal" ELSE "ok"
PassiveVerdict(c) == CASE c.e = "det" -> DetVerdict(c)
                       [] c.e = "ident" -> IdentVerdict(c)
                       [] OTHER -> "UnknownCall"
=============================================================================
