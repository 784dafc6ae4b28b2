-------------------------------- MODULE Papni --------------------------------
(* Passive learning of visibly pushdown automata.  c.data sequence of [w, l]      *)
(* (l BOOLEAN), c.nn = <<number of internal, call, return letters>>; c.m structure *)
(* of the result, c.m2 that of the result for the well-matched words only, c.runs  *)
(* words executed on the result with their answers.                                *)
EXTENDS Pushdown
Calls(c) == (c.nn[1] + 1)..(c.nn[1] + c.nn[2])
Rets(c) == (c.nn[1] + c.nn[2] + 1)..(c.nn[1] + c.nn[2] + c.nn[3])
Matched(c, w) == Balanced(Calls(c), Rets(c), w)
Useful(c) == {i \in 1..Len(c.data) : Matched(c, c.data[i].w)}
Contradictory(c) == \E i, j \in Useful(c) : c.data[i].w = c.data[j].w /\ c.data[i].l # c.data[j].l
(* words with every return paired with the letter it closes *)
RECURSIVE Enc(_, _, _)
Enc(c, w, st) == IF w = <<>> THEN <<>>
   ELSE LET a == Head(w) IN
        IF a \in Calls(c) THEN <<<<a, 0>>>> \o Enc(c, Tail(w), Append(st, a))
        ELSE IF a \in Rets(c) THEN <<<<a, st[Len(st)]>>>> \o Enc(c, Tail(w), SubSeq(st, 1, Len(st) - 1))
        ELSE <<<<a, 0>>>> \o Enc(c, Tail(w), st)
Tree(c) == {<<>>} \cup UNION {LET e == Enc(c, c.data[i].w, <<>>) IN {SubSeq(e, 1, j) : j \in 1..Len(e)} : i \in Useful(c)}
BadEdge(m, x) == \/ x.a \notin Letters(m) \/ x.t \notin 1..m.n \/ x.gs # 0
                 \/ (IsInt(m, x.a) /\ x.gc # 0)
                 \/ (IsCall(m, x.a) /\ x.gc # x.a)
                 \/ (IsRet(m, x.a) /\ ~IsCall(m, x.gc))
PapniVerdict(c) ==
  LET m == c.m
      D == Useful(c)
      run(w) == PRun(m, Conf0(m), w)
  IN
  IF c.before # c.after THEN "DataChanged"
  ELSE IF Contradictory(c) THEN (IF c.refused THEN "ok" ELSE "ContradictionIgnored")
  ELSE IF c.refused THEN "ConsistentDataRefused"
  ELSE IF ~(m.init \in 1..m.n) THEN "InitialStateMissing"
  ELSE IF \E x \in PEdges(m) : BadEdge(m, x) THEN "MalformedTransition"
  ELSE IF ~TablesMatch(m) THEN "Nondeterministic"
  ELSE IF \E i \in D : c.data[i].l /\ ~Accepts(m, c.data[i].w) THEN "PositiveExampleRejected"
  ELSE IF \E i \in D : ~c.data[i].l /\ Accepts(m, c.data[i].w) THEN "NegativeExampleAccepted"
  ELSE IF m.n > Cardinality(Tree(c)) THEN "MoreStatesThanPrefixTree"
  (* every state and transition is used by some well-matched word of the data *)
  ELSE IF \E s \in 1..m.n : \A i \in D : \A j \in 0..Len(c.data[i].w) : run(SubSeq(c.data[i].w, 1, j)).s # s THEN (IF D = {} /\ m.n = 1 THEN "ok" ELSE "UnsupportedState")
  ELSE IF \E x \in PEdges(m) : ~\E i \in D : \E j \in 1..Len(c.data[i].w) : c.data[i].w[j] = x.a
             /\ LET b == run(SubSeq(c.data[i].w, 1, j - 1)) IN b.s = x.s /\ (IsRet(m, x.a) => b.st[Len(b.st)] = <<0, x.gc>>) THEN "UnsupportedTransition"
  ELSE IF \E i \in 1..Len(c.runs) : c.runs[i].acc # Accepts(m, c.runs[i].w) THEN "RunDisagreesWithStructure"
  ELSE IF \E i \in 1..Len(c.runs) : c.runs[i].acc /\ ~Matched(c, c.runs[i].w) THEN "UnmatchedWordAccepted"
  ELSE IF ~c.refused2 /\ TablesMatch(c.m2) /\ ~SameLanguage(m, c.m2) THEN "UnmatchedWordsInfluence"
  ELSE IF c.refused2 THEN "UnmatchedWordsInfluence"
  ELSE "ok"
=============================================================================
