--------------------------------- MODULE Active --------------------------------
(* Active use of a passive learner: learn from the data, let a sampler observe the *)
(* system, add the observations, repeat; the result is learned from all data.      *)
EXTENDS Sampling, TLC
VARIABLES data, model, rounds
avars == <<data, model, rounds>>
(* a passive learner as a relation: any model that agrees with the data; models and *)
(* systems are total maps from observed words to outputs here                      *)
ActInit(given) == data = given /\ model = <<>> /\ rounds = 0
Observe(sys, T) == data' = data \cup {<<w, sys[w]>> : w \in T}
Round(sys, T, m) == /\ \A x \in data : m[x[1]] = x[2]
                    /\ model' = m /\ Observe(sys, T) /\ rounds' = rounds + 1
Last(m) == (\A x \in data : m[x[1]] = x[2]) /\ model' = m /\ UNCHANGED data
(* ---- recorded runs.  c.sys system; c.fmt "mdp", "smm", "rpni"; c.moore states   *)
(* carry outputs; c.given, c.final data before and after; c.calls one record per   *)
(* use of the sampler: tests executed, samples returned; c.models; c.model result   *)
Tests(q) == [i \in 1..Len(q.tests) |-> q.tests[i].ins]
NonEmpty(ts) == SelectSeq(ts, LAMBDA t : t.ins # <<>>)
CountOf(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : CountOf(p, p[i]) = CountOf(q, p[i])
Bare(ts) == [i \in 1..Len(ts) |-> [ins |-> ts[i].ins, outs |-> ts[i].outs]]
TestPrefixes(ts) == UNION {{[ins |-> SubSeq(t.ins, 1, i), o |-> t.outs[i]] : i \in 1..Len(t.ins)} : t \in Set(ts)}
SamplesGenuine(c, q) ==
  IF c.fmt = "rpni" THEN
    IF \E s \in Set(q.samples) : s.ins = <<>> /\ ~(c.moore /\ s.o = c.sys.lab[c.sys.init]) THEN "samples are observations of the system"
    ELSE IF {s \in Set(q.samples) : s.ins # <<>>} # TestPrefixes(q.tests) THEN "samples are observations of the system" ELSE "ok"
  ELSE IF \E s \in Set(q.samples) : s.eps # (IF c.moore THEN <<c.sys.lab[c.sys.init]>> ELSE <<>>) THEN "samples start as the data format asks"
  ELSE IF ~SameBag(Bare(NonEmpty(q.samples)), Bare(NonEmpty(q.tests))) THEN "samples are observations of the system" ELSE "ok"
Amount(c, q) ==
  IF c.fmt # "rpni" /\ Len(q.samples) # c.walks THEN "requested number of tests"
  ELSE IF Len(NonEmpty(q.tests)) > c.walks \/ (c.lo >= 1 /\ Len(NonEmpty(q.tests)) # c.walks) THEN "requested number of tests"
  ELSE IF \E t \in Set(NonEmpty(q.tests)) : Len(t.ins) < c.lo \/ Len(t.ins) > c.hi THEN "test lengths within the bounds"
  ELSE IF c.fmt # "rpni" /\ \E s \in Set(q.samples) : Len(s.ins) < c.lo \/ Len(s.ins) > c.hi THEN "test lengths within the bounds"
  ELSE "ok"
(* data a model agrees with *)
AgreesTrace(m, moore, t) == (moore => t.eps = <<m.lab[m.init]>>) /\ IsRun(m, t.ins, t.outs)
AgreesLabel(m, moore, t) == IF t.ins = <<>> THEN ~moore \/ t.o = m.lab[m.init]
                            ELSE \A s \in LastStates(m, t.ins) : {p[1] : p \in Opts(m, s, t.ins[Len(t.ins)])} = {t.o}
Agrees(c, m, D) == \A t \in Set(D) : IF c.fmt = "rpni" THEN AfterSet(m, {m.init}, t.ins) # {} /\ AgreesLabel(m, c.moore, t) ELSE AgreesTrace(m, c.moore, t)
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE Head(q).samples \o Joined(Tail(q))
(* the same model up to the order of states: both are observable *)
RECURSIVE IsoFrom(_, _, _, _)
IsoFrom(g, h, R, F) ==
  IF F = {} THEN \A p, q \in R : (p[1] = q[1]) = (p[2] = q[2])
  ELSE IF \E p \in F : g.lab[p[1]] # h.lab[p[2]] \/ {<<e.a, e.o, e.p>> : e \in {e \in Edges(g) : e.s = p[1]}} # {<<e.a, e.o, e.p>> : e \in {e \in Edges(h) : e.s = p[2]}} THEN FALSE
  ELSE LET nxt == UNION {{<<x[1].t, x[2].t>> : x \in {x \in {e \in Edges(g) : e.s = p[1]} \X {f \in Edges(h) : f.s = p[2]} : x[1].a = x[2].a /\ x[1].o = x[2].o}} : p \in F} \ R
       IN IsoFrom(g, h, R \cup nxt, nxt)
Isomorphic(g, h) == g.n = h.n /\ IsoFrom(g, h, {<<g.init, h.init>>}, {<<g.init, h.init>>})
Valid(m) == m.init \in GStates(m) /\ \A e \in Edges(m) : e.t \in GStates(m)
FirstBad(c, f(_, _)) == LET B == {i \in 1..Len(c.calls) : f(c, c.calls[i]) # "ok"} IN IF B = {} THEN "ok" ELSE f(c, c.calls[CHOOSE i \in B : \A j \in B : i <= j])
ActiveVerdict(c) ==
  IF c.contradictory THEN (IF c.none THEN "ok" ELSE "contradictory data has no model")
  ELSE IF c.none THEN "a model is returned"
  ELSE IF Len(c.calls) # c.iters THEN "the sampler is used once per iteration"
  ELSE LET a == IF c.own THEN "ok" ELSE FirstBad(c, Amount)
           b == IF c.own THEN "ok" ELSE FirstBad(c, SamplesGenuine)
           D(i) == c.given \o Joined(SubSeq(c.calls, 1, i)) IN
  IF a # "ok" THEN a ELSE IF b # "ok" THEN b
  ELSE IF \E x \in Set(c.given) : CountOf(c.final, x) < CountOf(c.given, x) THEN "given data is kept"
  ELSE IF ~SameBag(c.final, D(Len(c.calls))) THEN "data is extended with the samples"
  ELSE IF ~Valid(c.model) \/ \E i \in 1..Len(c.calls) : ~Valid(c.calls[i].model) THEN "well-formed model"
  ELSE IF \E i \in 1..Len(c.calls) : ~Agrees(c, c.calls[i].model, D(i - 1)) THEN "each model agrees with the data so far"
  ELSE IF ~Agrees(c, c.model, D(Len(c.calls))) THEN "result agrees with all data"
  ELSE IF ~c.cls THEN "class of the result"
  ELSE IF ~Isomorphic(c.model, c.passive) THEN "result is what the passive learner makes of all data" ELSE "ok"
(* samplers used on their own *)
SamplerVerdict(c) == LET a == Amount(c, c.call) IN IF a # "ok" THEN a ELSE
  IF \E t \in Set(c.call.tests) : \E i \in 1..Len(t.ins) : t.ins[i] \notin Set(c.letters) THEN "tests use inputs of the model"
  ELSE IF c.spread /\ Set(c.letters) # UNION {Set(t.ins) : t \in Set(c.call.tests)} THEN "every input can be drawn"
  ELSE IF c.spread /\ {Len(t.ins) : t \in Set(NonEmpty(c.call.tests))} # c.lo..c.hi THEN "every length within the bounds can be drawn"
  ELSE SamplesGenuine(c, c.call)
JudgeA(c) == IF c.op = "sampler" THEN SamplerVerdict(c) ELSE ActiveVerdict(c)
=============================================================================
