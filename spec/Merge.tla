--------------------------------- MODULE Merge ---------------------------------
(* State merging on a prefix tree of input/output observations.                  *)
(* A tree d: nodes 1..d.N (1 the root), symbols 1..d.S with input d.symA[s] and  *)
(* output d.symO[s]; d.kid[n][s] child (0 none), d.cnt[n][s] how often seen,      *)
(* d.lab[n] label (Moore-like data; "" otherwise), d.dep[n] depth, d.rank[n]      *)
(* position in the order by length and then content.                            *)
(* A structure st over the same nodes: [kid, cnt, rep]; rep[n] is the node that  *)
(* represents tree node n.                                                      *)
EXTENDS Graph, SequencesExt, TLC
NodesOf(d) == 1..d.N
Syms(d) == 1..d.S
Start(d) == [kid |-> d.kid, cnt |-> d.cnt, rep |-> [n \in NodesOf(d) |-> n]]
(* identify node b (root of a tree) with node r, and all that follows from it     *)
RECURSIVE Fold(_, _, _, _)
Fold(d, st, q, steps) ==
  IF q = <<>> THEN [st |-> st, pairs |-> steps]
  ELSE LET r == q[1][1]
           b == q[1][2]
           K == {s \in Syms(d) : st.kid[b][s] # 0}
           both == {s \in K : st.kid[r][s] # 0}
           row == [s \in Syms(d) |-> IF st.kid[r][s] = 0 THEN st.kid[b][s] ELSE st.kid[r][s]]
           crow == [s \in Syms(d) |-> st.cnt[r][s] + st.cnt[b][s]]
           st2 == TLCEval([kid |-> [st.kid EXCEPT ![r] = row], cnt |-> [st.cnt EXCEPT ![r] = crow],
                           rep |-> [n \in NodesOf(d) |-> IF st.rep[n] = b THEN r ELSE st.rep[n]]])
           more == SetToSeq({<<st.kid[r][s], st.kid[b][s]>> : s \in both})
       IN Fold(d, st2, Tail(q) \o more, steps + 1)
(* a red node takes the place of a blue one *)
MergeInto(d, st, r, b) ==
  LET re == [st EXCEPT !.kid = [n \in NodesOf(d) |-> [s \in Syms(d) |-> IF st.kid[n][s] = b THEN r ELSE st.kid[n][s]]]]
  IN Fold(d, TLCEval(re), <<<<r, b>>>>, 0)
Blues(d, st, red) == {st.kid[r][s] : r \in red, s \in Syms(d)} \ ({0} \cup red)
(* ---- criteria *)
RECURSIVE SumOver(_, _)
SumOver(v, K) == IF K = {} THEN 0 ELSE LET s == CHOOSE s \in K : TRUE IN v[s] + SumOver(v, K \ {s})
Total(d, v, i) == SumOver(v, {s \in Syms(d) : d.symA[s] = i})
Ins(d, v) == {d.symA[s] : s \in {s \in Syms(d) : v[s] > 0}}
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
AbsV(x) == IF x < 0 THEN -x ELSE x
(* relative frequencies further apart than the Hoeffding bound allows?  l2lo and  *)
(* l2hi enclose 100 * ln(2/eps)/2; undecided between the two                     *)
Apart(x, tx, y, ty, lo, hi) ==
  LET D == AbsV(x * ty - y * tx)
      q == Root(4 * tx * ty, 0, 400)
  IN IF D * D * 100 > hi * tx * ty * (tx + ty + q + 1) THEN "yes"
     ELSE IF D * D * 100 > lo * tx * ty * (tx + ty + q) THEN "maybe" ELSE "no"
HoefLocal(d, va, vb, lo, hi) ==
  LET R == UNION {{Apart(va[s], Total(d, va, i), vb[s], Total(d, vb, i), lo, hi) : s \in {s \in Syms(d) : d.symA[s] = i}} : i \in Ins(d, va) \cap Ins(d, vb)}
  IN IF "yes" \in R THEN "no" ELSE IF "maybe" \in R THEN "maybe" ELSE "yes"
SameOuts(d, va, vb) == \A i \in Ins(d, va) \cap Ins(d, vb) : {s \in Syms(d) : d.symA[s] = i /\ va[s] > 0} = {s \in Syms(d) : d.symA[s] = i /\ vb[s] > 0}
All(d, v) == SumOver(v, Syms(d))
Local(d, k, va, vb) ==
  CASE k.what = "hoef" -> HoefLocal(d, va, vb, k.lo, k.hi)
    [] k.what = "tot" -> IF All(d, va) = 0 \/ All(d, vb) = 0 \/ AbsV(All(d, va) - All(d, vb)) <= k.lo THEN "yes" ELSE "no"
    [] k.what = "det" -> IF SameOuts(d, va, vb) THEN "yes" ELSE "no"
    [] OTHER -> "yes"
Worst(R) == IF "no" \in R THEN "no" ELSE IF "maybe" \in R THEN "maybe" ELSE "yes"
(* pairs of nodes reached from (r, b) by the same observations, at most k deep    *)
RECURSIVE Futures(_, _, _, _, _)
Futures(d, kid, front, seen, k) ==
  IF front = {} \/ k = 0 THEN seen
  ELSE LET new == {<<kid[p[1]][s], kid[p[2]][s]>> : p \in front, s \in Syms(d)} IN
       LET next == {p \in new : p[1] # 0 /\ p[2] # 0} IN Futures(d, kid, next, seen \cup next, k - 1)
FutureCompat(d, kid, cnt, crit, r, b) ==
  LET P == IF crit.depth = 0 THEN {} ELSE Futures(d, kid, {<<r, b>>}, {<<r, b>>}, crit.depth - 1)
  IN Worst({Local(d, k, cnt[p[1]], cnt[p[2]]) : k \in Range(crit.locals), p \in P})
(* ---- models: what the data says about them *)
Walk(d, m) == \* state of the model after every node of the tree (0: impossible)
  FoldLeft(LAMBDA q, n : Append(q, IF n = 1 THEN m.init
       ELSE LET T == {e.t : e \in {e \in Edges(m) : e.s = q[d.par[n]] /\ e.a = d.symA[d.by[n]] /\ e.o = d.symO[d.by[n]]}} IN
            IF q[d.par[n]] = 0 \/ T = {} THEN 0 ELSE CHOOSE t \in T : TRUE), <<>>, [n \in NodesOf(d) |-> n])
Seen(d, pos, s, x) == FoldLeft(LAMBDA t, n : IF pos[n] = s THEN t + d.cnt[n][x] ELSE t, 0, [n \in NodesOf(d) |-> n])
CloseTo(p, n, tot) == LET e == p * tot - n * 1000000 IN AbsV(e) <= 2 * tot
QuotientVerdict(d, m, pos, weighted, moore) ==
  IF m.init \notin GStates(m) \/ \E e \in Edges(m) : e.t \notin GStates(m) THEN "IllFormed"
  ELSE IF ~Observable(m) \/ Len(m.tr) # Cardinality(Edges(m)) THEN "NotObservable"
  ELSE IF \E n \in NodesOf(d) : pos[n] = 0 THEN "TraceNotPossible"
  ELSE IF GStates(m) # Range(pos) THEN "StateWithoutData"
  ELSE IF moore /\ \E n \in NodesOf(d) : m.lab[pos[n]] # d.lab[n] THEN "WrongStateLabel"
  ELSE LET seen == TLCEval([s \in GStates(m) |-> [x \in Syms(d) |-> Seen(d, pos, s, x)]]) IN
       IF \E e \in Edges(m) : ~\E x \in Syms(d) : d.symA[x] = e.a /\ d.symO[x] = e.o /\ seen[e.s][x] > 0 THEN "TransitionWithoutData"
       ELSE IF weighted /\ \E e \in Edges(m) : \E x \in Syms(d) : d.symA[x] = e.a /\ d.symO[x] = e.o
                 /\ ~CloseTo(e.p, seen[e.s][x], Total(d, seen[e.s], e.a)) THEN "WrongFrequency"
       ELSE "ok"
(* ---- ALERGIA: c.d tree, c.M model, c.node[s] the tree node of the state's       *)
(* prefix (0 if none).  Nodes are considered in order; each is merged with the     *)
(* first earlier state it is compatible with and becomes a state otherwise.       *)
Compat(c, r, b) == IF c.moore /\ c.d.lab[r] # c.d.lab[b] THEN "no" ELSE FutureCompat(c.d, c.d.kid, c.d.cnt, c.crit, r, b)
AlergiaVerdict(c) ==
  LET d == c.d m == c.M pos == TLCEval(Walk(c.d, c.M)) q == TLCEval(QuotientVerdict(c.d, c.M, pos, TRUE, c.moore))
      R == {c.node[s] : s \in GStates(m)}
      compat == TLCEval([n \in NodesOf(d) |-> IF n # 1 /\ (n \in R \/ d.par[n] \in R) THEN [r \in R |-> IF d.rank[r] < d.rank[n] THEN Compat(c, r, n) ELSE "none"] ELSE [r \in R |-> "none"]])
      mine(n) == c.node[pos[n]] IN
  IF ~c.cls THEN "WrongModelClass"
  ELSE IF q # "ok" THEN q
  ELSE IF \E s \in GStates(m) : c.node[s] = 0 \/ pos[c.node[s]] # s THEN "WrongPrefix"
  ELSE IF c.node[m.init] # 1 THEN "WrongPrefix"
  ELSE IF \E n \in R \ {1} : \E r \in R : compat[n][r] = "yes" THEN "CompatibleStatesKeptApart"
  ELSE IF \E n \in NodesOf(d) \ R : d.par[n] \in R /\ compat[n][mine(n)] \in {"no", "none"} THEN "IncompatibleMerged"
  ELSE IF \E n \in NodesOf(d) \ R : d.par[n] \in R /\ \E r \in R : d.rank[r] < d.rank[mine(n)] /\ compat[n][r] = "yes" THEN "MergedWithLaterState"
  ELSE "ok"
(* ---- merging where only the result is known, optionally against a second run    *)
(* that was configured to do the same                                            *)
RECURSIVE Bisim(_, _, _, _)
Bisim(g, h, seen, front) ==
  IF \E p \in front : \/ {<<e.a, e.o>> : e \in {e \in Edges(g) : e.s = p[1]}} # {<<e.a, e.o>> : e \in {e \in Edges(h) : e.s = p[2]}}
                      \/ g.lab[p[1]] # h.lab[p[2]]
                      \/ \E e \in Edges(g), f \in Edges(h) : e.s = p[1] /\ f.s = p[2] /\ e.a = f.a /\ e.o = f.o /\ AbsV(e.p - f.p) > 2
  THEN FALSE
  ELSE LET new == {<<x.t, y.t>> : x \in {e \in Edges(g) : \E p \in front : e.s = p[1]}, y \in {f \in Edges(h) : \E p \in front : f.s = p[2]}} IN
       LET nxt == {p \in new : \E o \in front : \E e \in Edges(g), f \in Edges(h) : e.s = o[1] /\ f.s = o[2] /\ e.a = f.a /\ e.o = f.o /\ p = <<e.t, f.t>>} \ seen
       IN nxt = {} \/ Bisim(g, h, seen \cup nxt, nxt)
SameModel(g, h) == g.n = h.n /\ Len(g.tr) = Len(h.tr) /\ LET i == {<<g.init, h.init>>} IN Bisim(g, h, i, i)
ResultVerdict(c) ==
  LET pos == TLCEval(Walk(c.d, c.M)) q == TLCEval(QuotientVerdict(c.d, c.M, pos, c.weighted, c.moore)) IN
  IF ~c.cls THEN "WrongModelClass"
  ELSE IF ~c.complete /\ q # "ok" THEN q
  ELSE IF c.complete /\ \E s \in GStates(c.M), i \in {c.d.symA[x] : x \in Syms(c.d)} : ~\E e \in Edges(c.M) : e.s = s /\ e.a = i THEN "NotComplete"
  ELSE IF c.second /\ ~SameModel(c.M, c.M2) THEN "NotAsConfigured"
  ELSE "ok"
MergeVerdict(c) == IF c.what = "alergia" THEN AlergiaVerdict(c) ELSE ResultVerdict(c)
=============================================================================
