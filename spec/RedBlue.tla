-------------------------------- MODULE RedBlue --------------------------------
(* Generalized state merging as a state machine.  st is the structure folded so   *)
(* far, red the nodes already promoted, dep their distance from the root.         *)
(* crit describes the criterion the user chose:                                   *)
(*   moore      labels must agree                                                 *)
(*   det        the folded structure must stay deterministic                      *)
(*   locals     local criteria (Merge!Local), evaluated                           *)
(*     mode "pta"      on the futures of both nodes in the prefix tree            *)
(*     mode "now"      on their futures in the current structure                  *)
(*     mode "global"   after folding, between every node and what it became       *)
(*     mode "fold"     while folding, breadth first, less than depth steps deep    *)
(*     mode "first"    only known for the two nodes themselves                    *)
(*     mode "any"      not known                                                  *)
(*   depth      futures are compared less than that many steps deep               *)
(*   bad        pairs of nodes the criterion rejects (mode "pta")                 *)
(*   sink       leaves only merge with leaves ("same"), or not at all ("never")   *)
(*   score      "true" any accepted merge is as good as any other, "evid" number   *)
(*              of identified nodes, "freq" observations on merged transitions     *)
(*              "pairs" number of pairs of nodes compared in the prefix tree      *)
(*   min        scores must exceed it                                             *)
(*   greedy     accepted merges are equally good nevertheless                     *)
(*   minblue    only one blue node is considered, near: the nearest               *)
EXTENDS Merge
VARIABLES st, red, dep, open
rvars == <<st, red, dep, open>>
DetHere(d, s, n) == \A x, y \in Syms(d) : (s.kid[n][x] # 0 /\ s.kid[n][y] # 0 /\ d.symA[x] = d.symA[y]) => x = y
LiveNodes(s) == Range(s.rep)
Leaf(d, s, n) == \A x \in Syms(d) : s.cnt[n][x] = 0
SinkOk(d, k, s, r, b) == CASE k.sink = "" -> TRUE
   [] k.sink = "same" -> Leaf(d, s, r) = Leaf(d, s, b)
   [] OTHER -> Leaf(d, s, r) = Leaf(d, s, b) /\ ~Leaf(d, s, r)
Score(d, k, s, f) ==
  CASE k.score = "evid" -> f.pairs
    [] k.score = "freq" -> FoldLeft(LAMBDA t, n : t + SumOver(s.cnt[n], {x \in Syms(d) : s.cnt[n][x] # f.st.cnt[f.st.rep[n]][x]}), 0, SetToSeq(LiveNodes(s)))
    [] OTHER -> 0
ScoreOf(d, k, s, f, ro, bo) == IF k.score = "pairs" THEN IF k.depth = 0 THEN 0 ELSE Cardinality(Futures(d, d.kid, {<<ro, bo>>}, {<<ro, bo>>}, k.depth - 1)) ELSE Score(d, k, s, f)
(* folding breadth first while comparing what is identified                      *)
RECURSIVE FoldOk(_, _, _, _)
FoldOk(d, k, s, q) ==
  IF q = <<>> THEN "yes"
  ELSE LET r == q[1][1]
           b == q[1][2]
           dp == q[1][3]
           loc == IF dp >= k.depth THEN "yes" ELSE Worst({Local(d, l, s.cnt[r], s.cnt[b]) : l \in Range(k.locals)})
           both == {x \in Syms(d) : s.kid[b][x] # 0 /\ s.kid[r][x] # 0}
           s2 == TLCEval([kid |-> [s.kid EXCEPT ![r] = [x \in Syms(d) |-> IF s.kid[r][x] = 0 THEN s.kid[b][x] ELSE s.kid[r][x]]],
                  cnt |-> [s.cnt EXCEPT ![r] = [x \in Syms(d) |-> s.cnt[r][x] + s.cnt[b][x]]]])
       IN IF loc # "yes" THEN loc ELSE FoldOk(d, k, s2, Tail(q) \o SetToSeq({<<s.kid[r][x], s.kid[b][x], dp + 1>> : x \in both}))
FoldCompat(d, k, s, r, b) == FoldOk(d, k, TLCEval([kid |-> [n \in NodesOf(d) |-> [x \in Syms(d) |-> IF s.kid[n][x] = b THEN r ELSE s.kid[n][x]]], cnt |-> s.cnt]), <<<<r, b, 0>>>>)
PtaCompat(d, k, ro, bo) ==
  LET P == Futures(d, d.kid, {<<ro, bo>>}, {<<ro, bo>>}, k.depth - 1) IN
  IF k.depth > 0 /\ \E p \in P : p \in Range(k.bad) THEN "no" ELSE FutureCompat(d, d.kid, d.cnt, k, ro, bo)
(* r, b nodes of the structure; ro, bo the tree nodes they go by                   *)
Accepts(d, k, s, r, b, ro, bo) ==
  IF k.moore /\ d.lab[ro] # d.lab[bo] THEN [ok |-> "no", score |-> 0]
  ELSE IF ~SinkOk(d, k, s, r, b) THEN [ok |-> "no", score |-> 0]
  ELSE LET f == TLCEval(MergeInto(d, s, r, b))
           loc == CASE k.mode = "pta" -> PtaCompat(d, k, ro, bo)
                    [] k.mode = "now" -> FutureCompat(d, s.kid, s.cnt, k, r, b)
                    [] k.mode = "global" -> Worst({Local(d, l, f.st.cnt[f.st.rep[n]], s.cnt[n]) : l \in Range(k.locals), n \in LiveNodes(s)})
                    [] k.mode = "fold" -> FoldCompat(d, k, s, r, b)
                    [] k.mode = "any" -> "maybe"
                    [] k.mode = "first" -> IF k.depth > 0 /\ \E l \in Range(k.locals) : Local(d, l, s.cnt[r], s.cnt[b]) = "no" THEN "no" ELSE "maybe"
                    [] OTHER -> "yes"
           det == IF k.det THEN \A n \in LiveNodes(f.st) : DetHere(d, f.st, n) ELSE TRUE
           sc == ScoreOf(d, k, s, f, ro, bo) IN
       [ok |-> IF ~det THEN "no" ELSE IF k.score # "true" /\ sc <= k.min THEN "no" ELSE loc, score |-> sc]
BlueDep(d, b) == 1 + CHOOSE x \in {dep[r] : r \in {r \in red : \E y \in Syms(d) : st.kid[r][y] = b}} : TRUE
Nearest(d, b) == \A x \in Blues(d, st, red) : BlueDep(d, b) <= BlueDep(d, x)
(* verdicts on events; ids are the tree nodes the real nodes started as            *)
PromoteVerdict(d, k, n) ==
  LET b == st.rep[n] IN
  IF red = {} THEN (IF n = 1 THEN "ok" ELSE "RootNotFirst")
  ELSE IF b \notin Blues(d, st, red) THEN "PromotedNotBlue"
  ELSE IF k.near /\ ~Nearest(d, b) THEN "NotNearest"
  ELSE IF \E r \in red : Accepts(d, k, st, r, b, r, n).ok = "yes" THEN "PromotedThoughMergeable"
  ELSE "ok"
Alone(n) == Cardinality({m \in DOMAIN st.rep : st.rep[m] = n}) = 1
Comparable(d, k, n) == k.mode # "pta" \/ Alone(n)
MergeEventVerdict(d, k, rn, bn) ==
  LET r == st.rep[rn] b == st.rep[bn] IN
  IF r \notin red \/ r # rn THEN "MergedIntoNotRed"
  ELSE IF b \notin Blues(d, st, red) THEN "MergedNotBlue"
  ELSE IF k.near /\ ~Nearest(d, b) THEN "NotNearest"
  ELSE LET a == TLCEval(Accepts(d, k, st, r, b, r, bn)) IN
       IF a.ok = "no" THEN "MergedThoughRejected"
       ELSE IF k.score = "true" \/ k.greedy THEN "ok"
       ELSE LET others == IF k.minblue THEN {b} ELSE {x \in Blues(d, st, red) : x = b \/ Comparable(d, k, x)}
                acc == TLCEval([x \in others |-> [q \in red |-> Accepts(d, k, st, q, x, q, IF x = b THEN bn ELSE x)]]) IN
            IF \E x \in others, q \in red : acc[x][q].ok = "yes" /\ acc[x][q].score > a.score THEN "BetterMergeAvailable"
            ELSE IF \E x \in others : x # b /\ \A q \in red : acc[x][q].ok = "no" THEN "MergedBeforePromotion"
            ELSE "ok"
Promote(d, n) == LET b == st.rep[n] IN
  \* the node goes by its own tree node from now on
  /\ st' = IF b = n THEN st ELSE [kid |-> [[[m \in NodesOf(d) |-> [s \in Syms(d) |-> IF st.kid[m][s] = b THEN n ELSE st.kid[m][s]]] EXCEPT ![n] =
                 [s \in Syms(d) |-> IF st.kid[b][s] = b THEN n ELSE st.kid[b][s]]] EXCEPT ![b] = st.kid[n]],
               cnt |-> [st.cnt EXCEPT ![n] = st.cnt[b]], rep |-> [m \in NodesOf(d) |-> IF st.rep[m] = b THEN n ELSE st.rep[m]]]
  /\ dep' = [dep EXCEPT ![n] = IF red = {} THEN 0 ELSE BlueDep(d, b)]
  /\ red' = red \cup {n} /\ open' = open
MergeStep(d, rn, bn) == /\ st' = MergeInto(d, st, rn, st.rep[bn]).st /\ UNCHANGED <<red, dep, open>>
Begin(d) == st = Start(d) /\ red = {} /\ dep = [n \in NodesOf(d) |-> 0] /\ open = TRUE
(* the finished structure is the model *)
RECURSIVE AgreeFrom(_, _, _, _, _)
AgreeFrom(d, k, m, seen, front) ==
  IF \E p \in front :
       \/ p[2] \notin GStates(m)
       \/ {<<e.a, e.o>> : e \in {e \in Edges(m) : e.s = p[2]}} # {<<d.symA[x], d.symO[x]>> : x \in {x \in Syms(d) : st.kid[p[1]][x] # 0}}
       \/ (k.moore /\ m.lab[p[2]] # d.lab[p[1]])
       \/ (k.weighted /\ \E x \in {x \in Syms(d) : st.kid[p[1]][x] # 0} : \E e \in Edges(m) :
             e.s = p[2] /\ e.a = d.symA[x] /\ e.o = d.symO[x] /\ ~CloseTo(e.p, st.cnt[p[1]][x], Total(d, st.cnt[p[1]], e.a)))
  THEN FALSE
  ELSE LET nxt == UNION {{<<st.kid[p[1]][x], e.t>> : x \in {x \in Syms(d) : st.kid[p[1]][x] # 0}, e \in {e \in Edges(m) : e.s = p[2]}} : p \in front}
           ok == {q \in nxt : \E p \in front : \E x \in Syms(d) : st.kid[p[1]][x] = q[1] /\ q[1] # 0 /\ \E e \in Edges(m) :
                     e.s = p[2] /\ e.a = d.symA[x] /\ e.o = d.symO[x] /\ e.t = q[2]} \ seen
       IN ok = {} \/ AgreeFrom(d, k, m, seen \cup ok, ok)
EndVerdict(d, k, m) ==
  IF Blues(d, st, red) # {} THEN "StoppedEarly"
  ELSE IF m.n # Cardinality(red) THEN "WrongNumberOfStates"
  ELSE IF ~Observable(m) \/ Len(m.tr) # Cardinality(Edges(m)) THEN "NotObservable"
  ELSE IF ~AgreeFrom(d, k, m, {<<1, m.init>>}, {<<1, m.init>>}) THEN "ModelDiffers"
  ELSE "ok"
=============================================================================
