-------------------------------- MODULE Sampling -------------------------------
(* Data taken from models.  A sampler is a nondeterministic choice of words and,  *)
(* for each word, of a run of the model; the recorded result must be one of its   *)
(* outcomes.  Traces are [eps, ins, outs]: eps <<label>> where the format starts  *)
(* with the output of the initial state, <<>> otherwise.                          *)
EXTENDS Graph, Fsm
Set(q) == {q[i] : i \in 1..Len(q)}
IsRun(g, w, outs) == Len(w) = Len(outs) /\ RunSet(g, {g.init}, w, outs) # {}
EpsOK(g, moore, eps) == eps = IF moore THEN <<g.lab[g.init]>> ELSE <<>>
(* a label is a possible last output of a run on the word; the runs on a word     *)
RECURSIVE LastStates(_, _)
LastStates(g, w) == AfterSet(g, {g.init}, SubSeq(w, 1, Len(w) - 1))
LabelOK(g, moore, w, o) == IF w = <<>> THEN moore /\ o = g.lab[g.init]
                           ELSE \E s \in LastStates(g, w) : \E p \in Opts(g, s, w[Len(w)]) : p[1] = o
(* ---- traces and labels of given words ---- *)
IoTraces(c) == IF Len(c.res) # Len(c.ws) THEN "one trace per word"
  ELSE IF \E i \in 1..Len(c.ws) : c.res[i].ins # c.ws[i] THEN "trace has the inputs of its word"
  ELSE IF \E i \in 1..Len(c.ws) : ~EpsOK(c.g, c.moore, c.res[i].eps) THEN "trace starts with the initial output"
  ELSE IF \E i \in 1..Len(c.ws) : ~IsRun(c.g, c.ws[i], c.res[i].outs) THEN "trace is a run of the model"
  ELSE IF c.after # c.g THEN "model unchanged" ELSE "ok"
Labeled(c) == IF c.refused # (~c.moore /\ <<>> \in Set(c.ws)) THEN "empty word has a label exactly if states have outputs"
  ELSE IF c.refused THEN "ok"
  ELSE IF Len(c.res) # Len(c.ws) THEN "one label per word"
  ELSE IF \E i \in 1..Len(c.ws) : c.res[i].ins # c.ws[i] THEN "label belongs to its word"
  ELSE IF \E i \in 1..Len(c.ws) : ~LabelOK(c.g, c.moore, c.ws[i], c.res[i].o) THEN "label is the output the model ends with"
  ELSE IF c.after # c.g THEN "model unchanged" ELSE "ok"
(* ---- drawn words ---- *)
Lengths(ws) == {Len(ws[i]) : i \in 1..Len(ws)}
Drawn(c, ws) == IF Len(ws) # c.count THEN "requested number of samples"
  ELSE IF \E i \in 1..Len(ws) : \E j \in 1..Len(ws[i]) : ws[i][j] \notin Set(c.letters) THEN "samples use the given alphabet"
  ELSE IF \E l \in Lengths(ws) : l < c.lo \/ (c.hi >= 0 /\ l > c.hi) THEN "sample lengths within the bounds"
  ELSE IF c.spread /\ ~(Set(c.letters) \subseteq UNION {Set(ws[i]) : i \in 1..Len(ws)}) THEN "every letter can be drawn"
  ELSE IF c.spread /\ ~(c.lo..c.hi \subseteq Lengths(ws)) THEN "every length within the bounds can be drawn"
  ELSE "ok"
Insof(res) == [i \in 1..Len(res) |-> res[i].ins]
DrawnCall(c) == LET d == Drawn(c, Insof(c.res)) IN IF d # "ok" THEN d
  ELSE IF ~c.outs THEN "ok"
  ELSE IF \E i \in 1..Len(c.res) : ~EpsOK(c.g, c.moore, c.res[i].eps) THEN "trace starts with the initial output"
  ELSE IF \E i \in 1..Len(c.res) : ~IsRun(c.g, c.res[i].ins, c.res[i].outs) THEN "trace is a run of the model"
  ELSE IF c.after # c.g THEN "model unchanged" ELSE "ok"
(* number of letters drawn in total: geometric lengths, bounds far beyond chance  *)
RECURSIVE SumLen(_, _)
SumLen(ws, i) == IF i = 0 THEN 0 ELSE Len(ws[i]) + SumLen(ws, i - 1)
TermCall(c) == LET d == DrawnCall(c) IN IF d # "ok" THEN d
  ELSE IF SumLen(Insof(c.res), Len(c.res)) \notin c.total[1]..c.total[2] THEN "termination probability" ELSE "ok"
(* ---- complete samples of minimal machines: acc[q] an access word of q ---- *)
(* every transition is exercised, and the access words and their one-letter       *)
(* extensions that lead to different states are separated by a common suffix       *)
Suffixes(S, u) == {SubSeq(w, Len(u) + 1, Len(w)) : w \in {w \in S : IsPrefixOf(u, w)}}
SeenDiff(m, p, q, v) == IF v = <<>> THEN ~m.mealy /\ m.o[p] # m.o[q]
                        ELSE \E i \in 0..Len(v) : LET x == SubSeq(v, 1, i) IN
                              (IF i = 0 THEN ~m.mealy /\ m.o[p] # m.o[q] ELSE LastOut(m, p, x) # LastOut(m, q, x))
(* S the set of sampled words *)
CompleteSample(m, acc, S) ==
  LET SP == {acc[q] : q \in States(m)}
      K == {Append(acc[q], a) : q \in States(m), a \in Inputs(m)} IN
  IF \E q \in States(m) : After(m, m.init, acc[q]) # q THEN "access words"
  ELSE IF \E u \in SP \cup K : ~\E w \in S : IsPrefixOf(u, w) THEN "complete sample exercises every transition"
  ELSE IF \E u \in SP, x \in SP \cup K : LET p == After(m, m.init, u)
                                              q == After(m, m.init, x) IN
             p # q /\ ~\E v \in Suffixes(S, u) \cap Suffixes(S, x) : SeenDiff(m, p, q, v)
       THEN "complete sample separates different states"
  ELSE "ok"
CompleteCall(c) == LET ws == Insof(c.res)
                       r == CompleteSample(c.m, c.acc, Set(ws)) IN
  IF \E i \in 1..Len(ws) : \E j \in 1..Len(ws[i]) : ws[i][j] \notin Inputs(c.m) THEN "samples use the given alphabet"
  ELSE IF r # "ok" THEN r
  ELSE IF ~c.outs THEN "ok"
  ELSE IF \E i \in 1..Len(c.res) : c.res[i].eps # (IF c.m.mealy THEN <<>> ELSE <<c.m.o[c.m.init]>>) THEN "trace starts with the initial output"
  ELSE IF \E i \in 1..Len(c.res) : c.res[i].outs # Trace(c.m, c.m.init, c.res[i].ins) THEN "trace is a run of the model"
  ELSE "ok"
(* ---- converting traces into labelled prefixes ---- *)
Prefixes(t) == {[ins |-> SubSeq(t.ins, 1, i), o |-> t.outs[i]] : i \in 1..Len(t.ins)}
LabelledPrefixes(ts) == UNION {Prefixes(t) \cup {[ins |-> <<>>, o |-> t.eps[i]] : i \in 1..Len(t.eps)} : t \in Set(ts)}
ConvertCall(c) == IF c.bad THEN (IF c.refused THEN "ok" ELSE "unknown class refused")
  ELSE IF Set(c.res) # LabelledPrefixes(c.ts) THEN "labelled data is exactly the prefixes of the traces"
  ELSE IF c.dup THEN "each labelled prefix once" ELSE "ok"
(* ---- data drawn from a model in one go ---- *)
DataCall(c) == LET d == Drawn(c, Insof(c.res)) IN IF d # "ok" THEN d
  ELSE IF c.fmt = "io" THEN (IF \E i \in 1..Len(c.res) : ~IsRun(c.g, c.res[i].ins, c.res[i].outs) THEN "trace is a run of the model" ELSE "ok")
  ELSE IF \E i \in 1..Len(c.res) : ~LabelOK(c.g, c.moore, c.res[i].ins, c.res[i].o) THEN "label is the output the model ends with" ELSE "ok"
(* ---- written sequences read back ---- *)
TokenCall(c) == IF c.refused # c.malformed THEN "malformed data refused"
  ELSE IF c.refused \/ c.read = c.written THEN "ok"
  ELSE IF Len(c.read) # Len(c.written) THEN "one sequence per line" ELSE "sequences read as written"
(* ---- Markov-chain data as data of a process with one input ---- *)
McCall(c) == IF c.res = [i \in 1..Len(c.seqs) |-> [eps |-> <<c.seqs[i][1]>>, ins |-> [j \in 1..(Len(c.seqs[i]) - 1) |-> c.one],
                                                outs |-> SubSeq(c.seqs[i], 2, Len(c.seqs[i]))]]
             THEN "ok" ELSE "chain data as process data"
Judge1(c) == CASE c.op = "io" -> IoTraces(c) [] c.op = "label" -> Labeled(c) [] c.op = "limits" -> DrawnCall(c)
             [] c.op = "term" -> TermCall(c) [] c.op = "complete" -> CompleteCall(c) [] c.op = "convert" -> ConvertCall(c)
             [] c.op = "data" -> DataCall(c) [] c.op = "token" -> TokenCall(c) [] c.op = "mc" -> McCall(c)
=============================================================================
